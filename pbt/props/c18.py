"""The command line interface against the library."""
import ast
import json

from .. import gen, model, notation
from ..client import Script, d, f, r
from ..runner import ensure
from .common import bundled_text, norm_dump, spec

EXAMPLES = {"quick": 360, "thorough": 1600}
RULE = (
    "A case is a source (a bundled transliterator, or a generated configuration as JSON text, "
    "JSON file or YAML file, dumped at any level with error-ignoring stored or not), zero to "
    "three inputs, and a set of commands with options in long or short form, positive, negative, "
    "repeated or absent, before or after one another. Every output and exit status is compared "
    "with what the library does. Non-trivial: at least two inputs or an option that contradicts "
    "the default or what is stored."
)
ASSUMPTIONS = [
    "Most commands are run inside the worker process through click's own runner; one case per "
    "shard runs them as separate processes.",
]
BUNDLED = ["Example", "ITRANSDevanagariToUnicode"]


def flags(g, name):
    """(arguments, meaning) of a boolean option; None if absent."""
    long, short = {"ie": ("ignore-errors", "ie"), "ca": ("check-ambiguity", "ca")}[name]
    out, val = [], None
    for _ in range(g.pick([0, 1, 1, 1, 2])):
        val = g.chance(1, 2)
        out.append(g.pick(["--%s%s" % ("" if val else "no-", long), "-%s%s" % ("" if val else "n", short)]))
    return out, val


def edge(g, s, text):
    """Sometimes whitespace at an end, known as a token or not."""
    ws = [t for t in s["tokens"] if t.isspace()] + ["\n", " ", "\r\n"]
    how = g.int(0, 5)
    return text + g.pick(ws) if how == 5 else g.pick(ws) + text if how == 4 else text


def case(draw, tier, proc=False):
    g = gen.G(draw, tier)
    kind = g.pick(["bundled", "json", "json_file", "yaml_file", "yaml_file", "json"])
    out = {"kind": kind, "proc": proc, "cmds": [], "bundled": g.pick(BUNDLED)}
    s, easy = notation.easy_settings(g, max_rules=g.pick([5, 9]), profile=g.pick(["plain", "munch", "uni", "special"]), complete=g.chance(2, 3))
    yaml = notation.yaml_text(g, easy)
    if notation.CHARNAME.search(yaml) and kind == "yaml_file":
        out["kind"] = kind = "json"
    out["ascii"] = g.chance(1, 4)
    out.update(settings=s, yaml=yaml, stored_ie=g.chance(1, 2), level=g.int(0, 2))
    for _ in range(g.int(1, 4)):
        how = g.int(0, 9)
        if how == 9:
            how = 5 if kind in ("bundled", "yaml_file") else 0
        if how <= 4:
            ie, ca = flags(g, "ie"), flags(g, "ca")
            to = g.pick([None, "python", "json", "json"])
            n = g.pick([0, 1, 1, 2, 3])
            inputs = [
                spec(g) if kind == "bundled" else gen.text_input(g, s, unknown=g.chance(1, 4), long=60) for _ in range(n)
            ]
            if kind != "bundled":
                inputs = [edge(g, s, x) for x in inputs]
            if proc:
                inputs = [x for x in inputs if not isinstance(x, str) or "\x00" not in x]
            out["cmds"].append({"cmd": "transliterate", "ie": ie, "ca": ca, "to": to, "inputs": inputs, "order": g.shuffled(range(4)), "long": g.chance(1, 2)})
        elif how == 5 and kind in ("bundled", "yaml_file"):
            out["cmds"].append({"cmd": "dump", "ca": flags(g, "ca"), "level": g.pick([None, 0, 1, 2, 3, -1, 9]), "order": g.shuffled(range(3)), "long": g.chance(1, 2)})
        elif how == 6:
            out["cmds"].append({"cmd": "generate-tests", "ca": flags(g, "ca"), "order": g.shuffled(range(2)), "long": g.chance(1, 2)})
        elif how == 7:
            out["cmds"].append({"cmd": g.pick(["dump-tests", "test", "list-bundled"]), "ca": flags(g, "ca"), "to": g.pick([None, "json", "yaml"]), "name": g.pick(BUNDLED), "long": g.chance(1, 2)})
        else:
            out["cmds"].append({"cmd": "wrong", "args": g.pick([
                ["transliterate", "a"],
                ["transliterate", "--from", "bundled", "Nowhere", "a"],
                ["transliterate", "--from", "nowhere", "Example", "a"],
                ["transliterate", "-f", "json", "{", "a"],
                ["transliterate", "-f", "json", "{}", "a"],
                ["transliterate", "-f", "yaml_file", "/nonexistent/x.yaml", "a"],
                ["transliterate", "-f", "json_file", "/nonexistent/x.json", "a"],
                ["transliterate", "-f", "bundled", "Example", "-t", "xml", "a"],
                ["transliterate", "-f", "bundled", "Example", "--nowhere", "a"],
                ["dump", "-f", "json", "{}"],
                ["dump", "-f", "bundled", "Nowhere"],
                ["dump", "-f", "bundled", "Example", "-cl", "x"],
                ["test", "Nowhere"],
                ["dump-tests", "Nowhere"],
                ["dump-tests", "Example", "-t", "xml"],
                ["generate-tests", "-f", "bundled", "Nowhere"],
                ["nowhere"],
            ])})
    return out


def fixed_cases(tier, index, count):
    """One case per shard as real processes."""
    out = []
    ca, ie = [[], None], [[], None]
    base = {
        "proc": True, "bundled": BUNDLED[index % 2], "level": index % 3, "stored_ie": bool(index & 1),
        "settings": {
            "tokens": {"a": ["A"], "é": [], " ": ["wb"]},
            "rules": [{"production": "α", "tokens": ["a"]}, {"production": "x", "tokens": ["é"]}, {"production": "_", "tokens": [" "]}],
            "whitespace": {"default": " ", "token_class": "wb", "consolidate": True},
        },
        "yaml": "tokens:\n  a: [A]\n  é: []\n  ' ': [wb]\nrules: {a: α, é: x, ' ': _}\nwhitespace: {default: ' ', token_class: wb, consolidate: true}\n",
    }
    kind = ["bundled", "json", "json_file", "yaml_file"][index % 4]
    texts = ["aé  a", "a?a"] if kind != "bundled" else [[["t", 1], ["r", 2]], [["u", 0]]]
    cmds = [
        {"cmd": "transliterate", "ie": ie, "ca": ca, "to": [None, "json"][index // 4], "inputs": texts[:1], "order": [0, 1, 2, 3], "long": True},
        {"cmd": "transliterate", "ie": ie, "ca": ca, "to": None, "inputs": texts, "order": [3, 2, 1, 0], "long": False},
        {"cmd": "transliterate", "ie": [["-ie"], True], "ca": ca, "to": "json", "inputs": texts, "order": [0, 1, 2, 3], "long": True},
        {"cmd": "wrong", "args": [["transliterate", "-f", "json", "{}", "a"], ["test", "Nowhere"]][index % 2]},
    ]
    if kind in ("bundled", "yaml_file"):
        cmds.append({"cmd": "dump", "ca": ca, "level": [None, 1][index // 4], "order": [0, 1, 2], "long": True})
    out.append(dict(base, kind=kind, cmds=cmds))
    return out


def ordered(groups, order):
    return [x for k in order if k < len(groups) for x in groups[k]]


def check(ctx, case):
    s, kind = case["settings"], case["kind"]
    sc = Script()
    run = "proc" if case["proc"] else "cli"
    if kind == "bundled":
        src = ["bundled", case["bundled"]]
        pre = Script()
        pre.call("TR.%s.new" % case["bundled"], to="b", k={"check_ambiguity": False})
        k = pre.add("state", g="b")
        bst = ctx.run(pre)[k].v
    elif kind == "yaml_file":
        sc.add("file", name="s.yaml", text=case["yaml"])
        src = ["yaml_file", f("s.yaml")]
    else:
        sc.call("GT.from_dict", gen.scripted_settings(s), to="g", k={"check_ambiguity": False, "ignore_errors": case["stored_ie"]})
        sc.call(["g", "dumps"], case["level"], to="txt")
        src = ["json", r("txt")]
        if kind == "json_file":
            sc.add("file", name="s.json", text=r("txt"))
            src = ["json_file", f("s.json")]

    def library(to, ca, ie=None):
        kw = {"check_ambiguity": bool(ca)}
        if ie is not None:
            kw["ignore_errors"] = ie
        if kind == "bundled":
            return sc.call("TR." + case["bundled"], to=to, k=kw)
        if kind == "yaml_file":
            return sc.call("GT.from_yaml_file", f("s.yaml"), to=to, k=kw)
        return sc.call("GT.loads", r("txt"), to=to, k=kw)

    plan = []
    hard = False
    for n, c in enumerate(case["cmds"]):
        cmd = c["cmd"]
        frm = ["--from" if c.get("long") else "-f"] + src
        if cmd == "transliterate":
            texts = [bundled_text(bst, x) for x in c["inputs"]] if kind == "bundled" else c["inputs"]
            to = [] if c["to"] is None else ["--to" if c["long"] else "-t", c["to"]]
            args = ["transliterate"] + ordered([frm, to, c["ie"][0], c["ca"][0]], c["order"]) + ["--"] + texts
            k = sc.add(run, args=args)
            made = library("l%d" % n, c["ca"][1], bool(c["ie"][1]))
            lib = sc.add("many", g="l%d" % n, s=texts)
            plan.append((c, k, made, lib))
            hard = hard or len(texts) > 1 or c["ie"][1] is not None and kind != "bundled"
        elif cmd == "dump":
            lev = [] if c["level"] is None else ["--compression-level" if c["long"] else "-cl", str(c["level"])]
            k = sc.add(run, args=["dump"] + ordered([frm, lev, c["ca"][0]], c["order"]))
            made = library("l%d" % n, c["ca"][1])
            lib = sc.call(["l%d" % n, "dumps"], *([] if c["level"] is None else [c["level"]]), ret=True)
            plan.append((c, k, made, lib))
        elif cmd == "generate-tests":
            k = sc.add(run, args=["generate-tests"] + ordered([frm, c["ca"][0]], c["order"]))
            made = library("l%d" % n, c["ca"][1])
            lib = sc.call("TR.Bundled.generate_yaml_tests", r("l%d" % n), ret=True)
            plan.append((c, k, made, lib))
        elif cmd == "wrong":
            plan.append((c, sc.add(run, args=c["args"]), None, None))
        elif cmd == "dump-tests":
            to = [] if c["to"] is None else ["--to" if c["long"] else "-t", c["to"]]
            k = sc.add(run, args=["dump-tests"] + to + [c["name"]])
            made = sc.call("TR.%s.new" % c["name"], to="l%d" % n)
            lib = sc.call(["l%d" % n, "load_yaml_tests"], ret=True)
            sc.add("get", f=["l%d" % n, "yaml_tests_filen"], to="fn")
            plan.append((c, k, made, (lib, sc.add("read", f=r("fn")))))
        elif cmd == "test":
            k = sc.add(run, args=["test"] + c["ca"][0] + [c["name"]])
            plan.append((c, k, None, None))
        else:
            k = sc.add(run, args=["list-bundled"])
            plan.append((c, k, None, sc.call("TR.iter_names", to="names") and sc.call("builtins.list", r("names"), ret=True)))
    res = ctx.run(sc, kind="ascii" if case.get("ascii") else "pypy")
    for x in res:
        if x.op.get("to") in ("g", "txt") or x.op["do"] == "file":
            x.need()
    for c, k, made, lib in plan:
        got, cmd = res[k].v, c["cmd"]
        ctx.label(cmd, "from " + kind)
        if cmd == "wrong":
            ensure(got["code"] != 0, "%r ended with status 0 and printed %r", c["args"], got["out"])
            continue
        if cmd == "test":
            ensure(got["code"] == 0 and got["out"].strip() == "True", "test %s: %r", c["name"], got)
            continue
        if cmd == "list-bundled":
            names = res[lib].v
            lines = [x.strip() for x in got["out"].splitlines()]
            ensure(got["code"] == 0 and names and all(lines.count(x) == 1 for x in names) and len(lines) <= len(names) + 1, "list-bundled: %r, library: %r", got, names)
            continue
        if cmd == "dump-tests":
            want = res[lib[0]].v
            if c["to"] == "json":
                ensure(got["code"] == 0 and parsed(json.loads, got["out"]) == want, "dump-tests as JSON: %r", got)
            else:
                ensure(got["code"] == 0 and got["out"].rstrip("\n") == res[lib[1]].v.rstrip("\n"), "dump-tests as YAML: %r", got)
            continue
        fails = not res[made].ok
        if fails:
            ctx.label("%s of ambiguous rules, checked" % cmd)
        if cmd == "transliterate" and not fails:
            fails = any(x[0] == "e" for x in res[lib].v)
        elif not fails:
            fails = not res[lib].ok
        if fails:
            ensure(got["code"] != 0, "%r should fail but ended with status 0 and printed %r", c, got["out"])
            ctx.label("failing command")
            continue
        ensure(got["code"] == 0, "%r ended with %r; the library does not fail", c, got)
        if cmd == "transliterate":
            want = [x[1] for x in res[lib].v]
            if len(want) == 1:
                want = want[0]
            if c["to"] == "json":
                ensure(parsed(json.loads, got["out"]) == want, "%r printed %r, the library gives %r", c, got["out"], want)
            elif isinstance(want, str):
                ensure(got["out"] == want + "\n", "%r printed %r, the library gives %r", c, got["out"], want)
            else:
                ensure(parsed(ast.literal_eval, got["out"].strip()) == want, "%r printed %r, the library gives %r", c, got["out"], want)
        elif cmd == "dump":
            if c["level"] == 0:
                ensure(norm_dump(got["out"]) == norm_dump(res[lib].v), "%r printed %r, the library gives %r", c, got["out"], res[lib].v)
            else:
                ensure(got["out"] == res[lib].v + "\n", "%r printed %r, the library gives %r", c, got["out"], res[lib].v)
        else:
            ensure(got["out"] == res[lib].v + "\n", "%r printed %r, the library gives %r", c, got["out"], res[lib].v)
    ctx.nontrivial = hard


def parsed(how, text):
    try:
        return how(text)
    except (ValueError, SyntaxError):
        return None
