"""What the commands write: make-json the files of those selected, the others nothing."""
import json
import re

from .. import gen, notation
from ..client import Script, f, r
from ..runner import digest, ensure
from . import c09

EXAMPLES = {"quick": 90, "thorough": 1000}
RULE = (
    "A case is two to five generated bundled transliterators with names that are parts of one "
    "another (some ambiguous, some with broken YAML), stale JSON files, and up to four commands: "
    "make-json by name or regular expression in several forms, and others. The files of the "
    "package and the scratch directory are compared before and after each. Non-trivial: a "
    "make-json command that selects some and leaves some."
)
ASSUMPTIONS = ["Files outside the package, the added directories and the working directory are not looked at."]
AMBIGUOUS = (
    "tokens: {a: [A], b: [A], ' ': [wb]}\nrules: {a (<A>): x, (<A>) a: y, a: z, b: b, ' ': ' '}\n"
    "whitespace: {default: ' ', token_class: wb, consolidate: no}\n"
)
UNWRITABLE = "tokens: {a: [wb]}\nrules: {a: x}\nwhitespace: {default: a, token_class: wb, consolidate: no}\nmetadata: {d: 2001-02-03}\n"  # a date has no JSON
BROKEN = ["tokens: {a\n", "tokens: {}\n", "tokens: {a: [wb]}\nrules: {b: x}\nwhitespace: {default: a, token_class: wb, consolidate: no}\n", "", UNWRITABLE, UNWRITABLE]


def case(draw, tier):
    g = gen.G(draw, tier)
    s, easy = simple(g)
    packs = []
    for _ in range(g.int(2, 5)):
        packs.append([
            g.pick(["", "B", "Ba", "BaB", "b", "A", "AB", "Ba1", "X_", "BaBa"]),
            g.pick(["good", "good", "good", "ambiguous", "broken"]),
            g.pick([None, "stale", "old", "old by default"]),
            g.pick(["", "", "", "_", "__", "_json", "_yaml", "_tests", "1", "_1", "X"]),
        ])
    cmds = []
    for _ in range(g.int(1, 4)):
        if g.chance(1, 4):
            cmds.append([g.pick(["transliterate", "dump", "dump-tests", "generate-tests", "test", "list-bundled"]), g.int(0, 9), g.int(0, 3), g.pick(["bundled", "bundled", "yaml_file", "json_file"])])
        else:
            cmds.append(["make-json", g.int(0, 9), g.pick(FORMS), g.int(0, 9)])
    return {"settings": s, "yaml": notation.yaml_text(g, easy), "packs": packs, "cmds": cmds, "text": gen.text_input(g, s), "broken": g.int(0, 5)}


# a valid JSON of other settings, longer than those made
OLD = json.dumps({
    "tokens": {"a": [], "old": [], " ": ["wb"]},
    "rules": [{"production": "old %d" % k, "tokens": ["old"] * k} for k in range(1, 90)],
    "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    "graphtransliterator_version": "0.1.0",
})


def simple(g):
    """A configuration without contexts, so without ambiguity."""
    toks = {x: [g.pick(["A", "B"])] for x in g.sample("abcde", g.int(1, 4))}
    toks[" "] = ["wb"]
    rules = {x: g.pick(["x", "y", "", "é", "x y"]) for x in toks}
    for _ in range(g.int(0, 2)):
        rules[" ".join(g.some(sorted(set(toks) - {" "}), 2, 3))] = g.pick(["X", "long", ""])
    ws = {"default": " ", "token_class": "wb", "consolidate": g.chance(1, 2)}
    s = {"tokens": toks, "rules": [{"production": p, "tokens": [k] if k == " " else k.split(" ")} for k, p in rules.items()], "whitespace": ws}
    easy = {"tokens": toks, "rules": rules, "whitespace": ws}
    if g.chance(1, 3):
        c = [x[0] for x in toks.values()]
        a, b = g.pick(c), g.pick(c)
        s["onmatch_rules"] = [{"prev_classes": [a], "next_classes": [b], "production": "+"}]
        easy["onmatch_rules"] = [{"<%s> + <%s>" % (a, b): "+"}]
    return s, easy


SOURCES = {"yaml_file": "x.yaml", "json_file": "y.json"}
# how the name is given, for the name n (and another name m); True: with --regex
FORMS = [
    ("%n", False), ("%n", False), ("%n", True), ("%n$", True), ("^%n$", True), ("%n.*", True), ("%n|%m", True), ("%n|%m", False),
    ("%n.*", False), ("%n?", False), (".%n", False), ("%h", False), ("%h", True), ("%t", True), (".*%t", True), ("%l", False), ("%l", True),
    ("(?i)%l$", True), ("%n\\Z", True), ("", True), ("$", True), (".", False), ("%n ", False), ("%n.", True), ("%d", False), ("(%n|%m)$", True), ("[%n]", True),
    ("Example", False), ("Exampl", False), ("Exampl", True), ("Example|%n$", True),
]


def pattern(form, n, m):
    return (
        form.replace("%n", n).replace("%m", m).replace("%h", n[:-1]).replace("%t", n[1:]).replace("%l", n.lower())
        .replace("%d", n[:-1] + ".")
    )


def check(ctx, case):
    k = getattr(ctx, "made_uses", 0)
    if k % 8 == 0:  # the registry is global to a process
        ctx.worker("copy").stop()
        ctx.made_known = {"Example": ("good", None)}
    ctx.made_uses = k + 1
    known = ctx.made_known
    mark = "Z%s%d" % (digest(case)[:6], k % 8)
    files, packs = [], []
    for k, (tail, kind, stale, *more) in enumerate(case["packs"]):
        name = mark + tail
        if name.lower() in [p[0].lower() for p in packs] or any(p[0] == name for p in packs):
            continue
        mod = "p%s_%d%s" % (mark.lower(), k, "".join(more))
        yaml = {"good": case["yaml"], "ambiguous": AMBIGUOUS, "broken": BROKEN[case["broken"]]}[kind]
        files.append([
            mod + "/__init__.py",
            "from graphtransliterator.transliterators import Bundled\n\n\nclass %s(Bundled):\n"
            "    def __init__(self, **kwargs):\n        self.from_%s(**dict({'check_ambiguity': False}, **kwargs))\n"
            % (name, "JSON" if stale == "old by default" else "YAML"),
        ])
        files.append([mod + "/%s.yaml" % mod, yaml])
        files.append([mod + "/tests/%s_tests.yaml" % mod, "{}\n"])
        if stale:
            files.append([mod + "/%s.json" % mod, "stale\n" if stale in ("stale", True) else OLD])
        packs.append((name, kind, mod + "/%s.json" % mod))
    sc = Script()
    base = sc.add("packages", name=mark, files=files, to="dir")
    root = sc.call(["dir", "__str__"], ret=True)
    sc.call("TR.add_transliterators", k={"path": [r("dir")]}, ret=False)
    listed = sc.add("published")
    for name, text in (("x.yaml", case["yaml"]), ("x.json", OLD), ("y.json", OLD), ("y.yaml", case["yaml"]), ("x_tests.yaml", "{}"), ("x.pickle", "")):
        sc.add("write", f=f("beside/" + name), text=text)
    trees = [sc.add("tree")]
    plan = []
    names = [p[0] for p in packs]
    for cmd in case["cmds"]:
        n, m = names[cmd[1] % len(names)], names[cmd[3] % len(names)] if cmd[0] == "make-json" else None
        if cmd[0] == "make-json":
            form, rx = cmd[2]
            arg = pattern(form, n, m)
            if not valid(arg, rx) or arg in ("", ".*", "$") and not rx:
                continue
            args = ["make-json"] + ([["--regex"], ["-re"]][cmd[1] % 2] if rx else [])
            args = args + ["--", arg] if cmd[1] % 3 else [args[0], arg] + args[1:]
            if arg == "" and cmd[1] % 3 == 0:
                args = ["make-json", "-re", "--", ""]
            i = sc.add("cli", args=args)
            plan.append(("make-json", arg, rx, i))
        else:
            source = ["bundled", n] if cmd[3:] in ([], ["bundled"]) else [cmd[3], f("beside/" + SOURCES[cmd[3]])]
            args = {
                "transliterate": ["transliterate", "-f"] + source + ["--", case["text"]],
                "dump": ["dump", "-f"] + source,
                "dump-tests": ["dump-tests", n],
                "generate-tests": ["generate-tests", "-f"] + source,
                "test": ["test", n],
                "list-bundled": ["list-bundled"],
            }[cmd[0]]
            plan.append((cmd[0], n, False, sc.add("cli", args=args)))
        trees.append(sc.add("tree"))
    sc.call("GT.from_dict", gen.scripted_settings(case["settings"]), to="ref", k={"check_ambiguity": False})
    pre = ctx.run(sc, kind="copy")
    pre[base].need()
    at = pre[root].v
    registered = pre[listed].v["names"]
    ensure(set(names) <= set(registered), "added %r, registered %r", names, registered)
    ex = [p for p in pre[trees[0]].v if p.endswith("/example/example.json")]
    known["Example"] = ("good", ex[0])
    known.update({n: (k, at + "/" + j) for n, k, j in packs})
    kinds = {n: k for n, (k, _) in known.items()}
    path_of = {n: p for n, (_, p) in known.items()}
    made = set()
    for (what, arg, rx, i), a, b in zip(plan, trees, trees[1:]):
        before, after = pre[a].v, pre[b].v
        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
        out = pre[i].v
        if what != "make-json":
            ensure(not changed, "%s changed files: %r", what, changed)
            continue
        sel = [n for n in registered if (re.match(arg, n) if rx else n == arg)]
        say = "make-json %r%s (of %r): " % (arg, " --regex" if rx else "", registered)
        may = {path_of[n] for n in sel if n in path_of and kinds[n] == "good"}
        ensure(changed <= may | {p for p in changed if "itrans" in p and any("ITRANS" in n for n in sel)}, say + "changed %r", changed)
        told = [n for n in registered if re.search(r"\bof %s\.?\s" % re.escape(n), out["out"])]
        failing = [n for n in sel if kinds.get(n, "good") != "good"]
        if failing:
            ensure(out["code"] != 0, say + "%r cannot be made, status 0: %r", failing, out)
            ctx.label("one selected cannot be made")
            done = sel[: sel.index(failing[0])]
            made |= {n for n in done if path_of.get(n) in changed}
        else:
            ensure(out["code"] == 0, say + "%r", out)
            ensure(told == sel, say + "told of %r", told)
            for n in sel:
                if n in path_of:
                    ensure(path_of[n] in after, say + "no JSON of %r", n)
            made |= set(sel)
        if sel and set(registered) - set(sel):
            ctx.nontrivial = True
        ctx.label("%s: %s" % ("regex" if rx else "name", "none" if not sel else "one" if len(sel) == 1 else "several"))
    own = [n for n in names if n in made]
    if own:
        sc = Script()
        sc.call("GT.from_dict", gen.scripted_settings(case["settings"]), to="ref", k={"check_ambiguity": False})
        ref = sc.add("state", g="ref")
        got = []
        for n in own:
            sc.add("read", f=path_of[n], to="txt")
            got.append((n, sc.call("GT.loads", r("txt"), to="j"), sc.add("state", g="j")))
        res = ctx.run(sc, kind="copy")
        for n, i, k in got:
            ensure(res[i].ok, "JSON made of %s: %r", n, res[i].raw)
            a, b = c09.view(res[k].v), c09.view(res[ref].v)
            for key in b:
                if key not in ("metadata", "lookup", "version", "onmatch_rules") or a[key] or b[key]:
                    ensure(a[key] == b[key], "JSON made of %s: %s is %r, not %r", n, key, a[key], b[key])


def valid(arg, rx):
    try:
        re.compile(arg)
    except re.error:
        return not rx
    return "\x00" not in arg
