"""The registry of bundled transliterators under additions of generated packages."""
import json

from .. import gen, notation
from ..client import Script, r
from ..runner import digest, ensure

EXAMPLES = {"quick": 120, "thorough": 800}
RULE = (
    "A case is up to four directories of generated packages, added one after the other: bundled "
    "transliterators (one or more a package), classes that are none (hidden by an underscore, "
    "imported or helper classes), plain modules, folders that are no packages, names like those "
    "of other classes (longer, shorter, in other case), names already taken, and the same "
    "directory twice. After each addition names, attributes, iteration and command line are compared with "
    "a model of the registry. Non-trivial: at least two transliterators added, and something "
    "that must be left out or refused."
)
ASSUMPTIONS = ["Packages are at the top of the added directory, as those of the library are."]
KINDS = ["bundled", "bundled", "bundled", "hidden", "helper", "import", "error"]


NAMING = ["own", "own", "own", "longer", "longer", "shorter", "lower", "swap"]


def case(draw, tier):
    g = gen.G(draw, tier)
    dirs = []
    n = 0
    for _ in range(g.int(1, 4)):
        packs = []
        for _ in range(g.int(1, 4)):
            kind = g.pick(["package", "package", "package", "module", "folder"])
            classes = [[g.pick(KINDS), g.int(0, 99), g.pick(NAMING)] for _ in range(g.pick([1, 1, 1, 2, 3]))]
            if g.chance(1, 8) and dirs:
                classes.append(["taken", g.int(0, 99), "own"])
            packs.append([kind, g.int(0, 99), classes])
            n += 1
        dirs.append(packs)
        if g.chance(1, 8):
            dirs.append("again")
            break
    s, easy = notation.easy_settings(g, max_rules=3, profile="plain", complete=True)
    s.pop("metadata", None)
    easy.pop("metadata", None)
    return {
        "settings": s,
        "yaml": notation.yaml_text(g, easy),
        "dirs": dirs,
        "text": gen.text_input(g, s),
    }


def source(case, classes):
    lines = ["from graphtransliterator.transliterators import Bundled"]
    for kind, name in classes:
        if kind == "import":
            lines.append("from collections import OrderedDict")
        elif kind == "helper":
            lines.append("class %s:\n    pass" % name)
        elif kind == "error":
            lines.append("class %s(Exception):\n    pass" % name)
        else:
            lines.append(
                "class %s(Bundled):\n    def __init__(self, **kwargs):\n"
                "        self.from_YAML(**dict({'check_ambiguity': False}, **kwargs))" % name
            )
    return "\n\n\n".join(lines) + "\n"


def named_like(style, other, own, k):
    if not other or style == "own":
        return own
    if style == "longer":
        return other + "Reverse%d" % k
    if style == "shorter":
        return other[:-1]
    if style == "lower":
        return other.lower()
    return other.swapcase()


def check(ctx, case):
    # names are fresh in each run; every few runs the registry is emptied
    k = getattr(ctx, "registry_uses", 0)
    if k % 6 == 0:
        ctx.worker().stop()
    ctx.registry_uses = k + 1
    mark = "x%s%d" % (digest(case)[:6], k)
    sc = Script()
    sc.add("published")
    registered = []  # in the model
    plan = []
    left_out = False
    used = []
    for d, packs in enumerate(case["dirs"]):
        files, new, refused = [], [], False
        if packs == "again":  # an earlier directory once more
            base = plan[-1][0]
            add = sc.call("TR.add_transliterators", ret=False, k={"path": [r("d%d" % (d - 1))]})
            plan.append((base, add, sc.add("published"), [], bool(plan[-1][3])))
            break
        for p, (kind, order, classes) in enumerate(packs):
            mod = "p%02d_%s_%d_%d" % (order, mark, d, p)
            named = []
            for k, (ck, n, style) in enumerate(classes):
                name = named_like(style, used[n % len(used)] if used else "", "K%02d%s_%d_%d_%d" % (n, mark, d, p, k), k)
                if name in used:
                    continue
                if ck == "hidden":
                    name = "_" + name
                if ck == "taken":
                    if not registered:
                        continue
                    name = registered[n % len(registered)]
                named.append((ck, name))
                if ck == "bundled":
                    used.append(name)
            if kind == "module":
                files.append([mod + ".py", source(case, named)])
            elif kind == "folder":
                files.append([mod + "/notes.txt", "nothing\n"])
            else:
                files.append([mod + "/__init__.py", source(case, named)])
                files.append([mod + "/%s.yaml" % mod, case["yaml"]])
                new += [(name, mod) for ck, name in named if ck == "bundled"]
                refused = refused or any(ck == "taken" for ck, _ in named)
            left_out = left_out or kind != "package" or any(ck != "bundled" for ck, _ in named)
        base = sc.add("packages", name="%s_%d" % (mark, d), files=files, to="d%d" % d)
        add = sc.call("TR.add_transliterators", ret=False, k={"path": [r("d%d" % d)]})
        after = sc.add("published")
        plan.append((base, add, after, new, refused))
        if refused:
            break  # what else the directory holds may or may not have been added
        registered += [name for name, _ in new]
    some = [name for *_, new, refused in plan if not refused for name, _ in new][:3]
    uses = []
    sc.call("GT.from_dict", gen.scripted_settings(case["settings"]), to="ref", k={"check_ambiguity": False})
    want = sc.add("many", g="ref", s=[case["text"]])
    for i, name in enumerate(some):
        sc.call("TR." + name, to="x%d" % i)
        uses.append(sc.add("many", g="x%d" % i, s=[case["text"]]))
    listing = sc.add("cli", args=["list-bundled"])
    cli = [sc.add("cli", args=["transliterate", "-f", "bundled", name, "-t", "json", "--", case["text"]]) for name in some[:1]]
    sc.call("TR.iter_transliterators", to="it")
    its = sc.call("builtins.list", r("it"), to="its")
    count = sc.call("builtins.len", r("its"), ret=True)
    res = ctx.run(sc)
    before = res[0].v
    ensure(before["all"][-len(before["names"]):] == before["names"] and all(before["bundled"]), "at first, %r", before)
    names = list(before["names"])
    for base, add, after, new, refused in plan:
        res[base].need()
        got = res[after].v
        say = "adding %r: " % (new,)
        if refused:
            ensure(res[add].exc == "ValueError", say + "a name that is taken gave %r", res[add].raw)
            ensure(got["names"][: len(names)] == names, say + "refused, but names are %r, not %r", got["names"], names)
            extra = got["names"][len(names) :]
            ensure(set(extra) <= {n for n, _ in new}, say + "refused, names added: %r", extra)
            ctx.label("refused")
        else:
            ensure(res[add].ok, say + "%s: %s", res[add].exc, res[add].msg)
            ensure(got["names"][: len(names)] == names, say + "names were %r, are %r", names, got["names"])
            extra = got["names"][len(names) :]
            ensure(sorted(extra) == sorted(n for n, _ in new), say + "names added are %r", extra)
        ensure(got["ids"][: len(names)] == before["ids"], say + "earlier transliterators were replaced: %r", got["names"])
        module = dict(new)
        for n, m in zip(extra, got["module"][len(names) :]):
            ensure(m == module[n], say + "%s is of module %r", n, m)
        ensure(got["module"][: len(names)] == before["module"], say + "earlier transliterators changed: %r, %r", got["module"], before["module"])
        ensure(got["named"] == got["names"] and all(got["bundled"]), say + "attributes %r for names %r", got["named"], got["names"])
        ensure(set(got["names"]) <= set(got["all"]) and len(set(got["all"])) == len(got["all"]), say + "__all__ is %r", got["all"])
        names, before = got["names"], got
    for i in uses:
        ensure(res[i].v == res[want].v, "%r transliterates to %r, not %r", case["text"], res[i].v, res[want].v)
    out = res[listing].v
    lines = [x.strip() for x in out["out"].splitlines()]
    ensure(out["code"] == 0 and [x for x in lines if x in names] == names and len(lines) <= len(names) + 1, "list-bundled: %r for %r", out, names)
    res[its].need()
    ensure(res[count].v == len(names), "iteration gives %r transliterators of %r", res[count].v, names)
    for i in cli:
        good = res[want].v[0]
        if good[0] == "v":
            ensure(res[i].v["code"] == 0 and json.loads(res[i].v["out"]) == good[1], "transliterate: %r, not %r", res[i].v, good)
        else:
            ensure(res[i].v["code"] != 0, "transliterate: %r, not %r", res[i].v, good)
    if left_out:
        ctx.label("something left out")
    ctx.label("%d directories" % len(plan))
    ctx.nontrivial = len(names) - len(res[0].v["names"]) >= 2 and (left_out or plan[-1][-1])
