"""Using the library leaves the rest of the process as it was."""
from .. import gen, model, notation
from ..client import Script, f, r
from ..runner import ensure

EXAMPLES = {"quick": 500, "thorough": 2000}
RULE = (
    "A case is a configuration and up to eight calls (building it as dictionary, YAML text or "
    "file, valid, damaged or ambiguous; dumping and loading at any level; transliterating, "
    "tokenizing, matching, pruning, coverage checks; bundled transliterators and their stored "
    "and generated tests; commands), in a process that does not set up logging. What the process "
    "holds besides (working directory, environment, import path, logging set-up, warning filters, "
    "random state, locale, limits, hooks, signal handlers, threads, open files, YAML, JSON and "
    "schema tables, files) is compared before and after, and what was printed is looked at. Some "
    "cases import the modules in a new process. Non-trivial: three kinds of calls, of which one "
    "failed or warned."
)
ASSUMPTIONS = [
    "Effects not in the list in pbt/world.py are not looked at; memory the library keeps for "
    "itself, and modules it imports late, are its own matter.",
]
BUNDLED = ["Example", "ITRANSDevanagariToUnicode"]
MODULES = ["graphtransliterator", "graphtransliterator.transliterators", "graphtransliterator.cli"]


def fixed_cases(tier, index, count):
    return [{"kind": "import", "modules": x} for k, x in enumerate([MODULES, MODULES[::-1], MODULES[1:2]]) if k == index]


def case(draw, tier):
    g = gen.G(draw, tier)
    s, easy = notation.easy_settings(g, max_rules=7, profile=g.pick(["plain", "munch", "uni"]), complete=g.chance(1, 2))
    yaml = notation.yaml_text(g, easy)
    if notation.CHARNAME.search(yaml):
        s.pop("metadata", None)
        easy.pop("metadata", None)
        yaml = notation.yaml_text(g, easy)
    calls = []
    for _ in range(g.int(1, 8)):
        k = g.pick(["dict", "dict", "yaml", "yaml_file", "bad", "use", "use", "use", "dump", "load", "prune", "cover", "bundled", "cli", "cli"])
        opts = {"check_ambiguity": g.chance(1, 2), "ignore_errors": g.chance(1, 2)}
        if k in ("dict", "yaml", "yaml_file"):
            calls.append([k, opts, g.chance(1, 3)])
        elif k == "bad":
            calls.append([k, g.pick(["tokens", "rules", "whitespace", "yaml", "names", "class", "json", "version", "file", "level", "empty"])])
        elif k == "use":
            calls.append([k, g.pick(["transliterate", "tokenize", "match"]), gen.text_input(g, s, unknown=g.chance(1, 2)), g.chance(1, 2)])
        elif k in ("dump", "load"):
            calls.append([k, g.int(0, 2), g.chance(1, 2), opts])
        elif k == "prune":
            calls.append([k, g.some([x["production"] for x in s["rules"]], 0, 2)])
        elif k == "cover":
            calls.append([k, gen.text_input(g, s), g.chance(1, 2)])
        elif k == "bundled":
            calls.append([k, g.pick(BUNDLED), g.pick(["json", "yaml"]), g.pick(["run_yaml_tests", "load_yaml_tests", "generate_yaml_tests", "use", "iter"]), g.chance(1, 2)])
        else:
            calls.append([k, g.pick(["transliterate", "dump", "dump-tests", "generate-tests", "test", "list-bundled", "wrong"]), g.pick(["bundled", "yaml_file", "json"]), g.pick(BUNDLED[:1] * 3 + BUNDLED[1:]), gen.text_input(g, s, unknown=g.chance(1, 3)), g.chance(1, 2)])
    return {"kind": "calls", "settings": s, "easy": easy, "yaml": yaml, "calls": calls}


def damaged(s, what):
    bad = dict(s)
    if what == "tokens":
        bad["tokens"] = {}
    elif what in ("rules", "whitespace"):
        bad.pop(what)
    elif what == "class":
        bad["rules"] = s["rules"] + [{"production": "x", "tokens": s["rules"][0]["tokens"] if s["rules"] else ["a"], "prev_classes": ["no such class"]}]
    return bad


def check(ctx, case):
    if case["kind"] == "import":
        sc = Script()
        sc.add("import", modules=case["modules"])
        got = ctx.run(sc)[0].v
        ensure(not got["changes"], "importing %r changed %r (before, after)", case["modules"], got["changes"])
        ensure(not got["out"] and not got["err"], "importing %r printed %r", case["modules"], got["out"] + got["err"])
        ctx.label("import")
        ctx.nontrivial = True
        return
    s = case["settings"]
    pre = Script()
    pre.add("file", name="x.yaml", text=case["yaml"])
    pre.call("GT.from_dict", gen.scripted_settings(s), to="g", k={"check_ambiguity": False})
    for level in (0, 1, 2):
        pre.call(["g", "dump"], level, to="d%d" % level)
        pre.call(["g", "dumps"], level, to="s%d" % level)
    pre.add("put", v=gen.scripted_settings(s), to="S")
    pre.add("put", v=gen.scripted_settings(dict(s, rules=s["rules"] * 2)), to="twice")
    for name in BUNDLED:
        pre.call("TR.%s.new" % name, "json", to="b" + name)
    sub = Script()

    def call(*a, **k):
        sub.call(*a, **dict({"ret": False}, **k))

    for n, c in enumerate(case["calls"]):
        k = c[0]
        if k == "dict":
            call("GT.from_dict", r("twice") if c[2] else r("S"), k=c[1])
        elif k == "yaml":
            call("GT.from_yaml", case["yaml"], k=c[1])
        elif k == "yaml_file":
            call("GT.from_yaml_file", f("x.yaml"), k=c[1])
        elif k == "bad":
            what = c[1]
            if what == "yaml":
                call("GT.from_yaml", case["yaml"] + "\n}: [")
            elif what == "names":
                call("GT.from_yaml", "tokens: {\\N{NO SUCH NAME}: []}")
            elif what == "json":
                call("GT.loads", "{")
            elif what == "version":
                call("GT.load", {"graphtransliterator_version": "99.0"})
            elif what == "file":
                call("GT.from_yaml_file", f("missing.yaml"))
            elif what == "level":
                call(["g", "dump"], 7)
            elif what == "empty":
                call("GT.from_yaml", "")
            else:
                call("GT.from_dict", gen.scripted_settings(damaged(s, what)))
        elif k == "use":
            sub.add("set", f=["g", "ignore_errors"], v=c[3])
            if c[1] == "match":
                sub.add("sweep", g="g", t=[model.tokenize(s, c[2], True)])
            else:
                call(["g", c[1]], c[2])
        elif k == "dump":
            call(["g", "dumps" if c[2] else "dump"], c[1])
        elif k == "load":
            if c[2]:
                call("GT.loads", r("s%d" % c[1]), k=c[3])
            else:
                call("GT.load", r("d%d" % c[1]), k=c[3])
        elif k == "prune":
            call(["g", "pruned_of"], c[1])
        elif k == "cover":
            for attr in ("tokens", "rules", "whitespace", "onmatch_rules"):
                sub.add("get", f=["g", attr], to="p_" + attr)
            call("CT", r("p_tokens"), r("p_rules"), r("p_whitespace"), to="c%d" % n, k={"onmatch_rules": r("p_onmatch_rules"), "check_ambiguity": False})
            call(["c%d" % n, "transliterate"], c[1])
            call(["c%d" % n, "check_coverage"], k={"raise_exception": c[2]})
            call(["c%d" % n, "clear_visited"])
        elif k == "bundled":
            if c[3] == "iter":
                call("TR.iter_transliterators", to="it%d" % n)
                call("builtins.list", r("it%d" % n))
            elif c[3] == "use":
                call("TR.%s.new" % c[1], c[2], to="n%d" % n)
                call(["n%d" % n, "transliterate"], "a b")
            else:
                call("TR.%s.new" % c[1], c[2], to="n%d" % n)
                call(["n%d" % n, c[3]])
        else:
            sub.add("cli", args=command(c))
    ctx_out = pre.add("effects", ops=sub.ops)
    res = ctx.run(pre)
    for x in res[:ctx_out]:
        x.need()
    got = res[ctx_out].v
    if got["changes"] or got["out"] or got["err"]:
        ctx.worker().stop()  # nothing of it is to be seen in the next case
    ensure(not got["changes"], "%r changed %r (before, after)", case["calls"], got["changes"])
    ensure(not got["out"] and not got["err"], "%r printed %r and %r", case["calls"], got["out"][:500], got["err"][:500])
    kinds = {c[0] for c in case["calls"]}
    failed = any(x[0] == "e" for x in got["results"])
    for k in kinds:
        ctx.label("with " + k)
    if failed:
        ctx.label("a call failed")
    if got["warned"]:
        ctx.label("a call warned")
    ctx.nontrivial = len(kinds) >= 3 and bool(failed or got["warned"])


def command(c):
    _, cmd, source, name, text, opt = c
    if cmd == "list-bundled":
        return [cmd]
    if cmd == "wrong":
        return ["transliterate", "--from", "bundled", "Nowhere", "a"]
    if cmd in ("dump-tests", "test"):
        return [cmd, name]
    if source == "json" and cmd == "dump":
        source = "yaml_file"
    at = name if source == "bundled" else f("x.yaml") if source == "yaml_file" else r("s2")
    args = [cmd, "-f", source, at]
    if cmd == "transliterate":
        return args + (["-ie"] if opt else []) + ["--", text]
    return args
