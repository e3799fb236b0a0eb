from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from . import c09
from .common import build

EXAMPLES = {"quick": 600, "thorough": 5000}
RULE = (
    "A case is a configuration with stored error-ignoring on or off, a compression level, load "
    "options (each absent, true or false), a subset of the derived optional fields left out, and "
    "a version number derived from the current one by raising or lowering a component or "
    "changing the number of components. Non-trivial: an option contradicts what is stored, or "
    "at least two fields are left out, or the version differs in a way that text order gets wrong."
)
OPTIONAL = ["onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version", "ignore_errors", "metadata", "edge_list"]


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, max_rules=6, profile=g.pick(["plain", "plain", "munch", "special", "uni"]))
    return {
        "settings": s,
        "stored_ie": g.chance(1, 2),
        "level": g.int(0, 2),
        "text": g.chance(1, 2),
        "ie": g.pick([None, True, False]),
        "ca": g.pick([None, True, False]),
        "drop": g.sample(OPTIONAL, g.int(0, len(OPTIONAL))),
        "version": [g.int(0, 2), g.pick([-1, -2, 1, 1, 2, 6, 8, 100, 0, 0]), g.pick([0, 0, 0, 1, -1]), g.pick([0, 0, 1, 9])],
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 2)) for _ in range(g.int(1, 4))],
        "tokens": [gen.framed(g, s, 2)],
        "lookup": g.pick([{"a": {"a": [0]}}, {" ": {" ": [0, 1]}}]),
        "no_onmatch": g.pick(["absent", None, []]),
    }


def derive(version, how):
    """A version string and how it compares with the given one: -1, 0 or 1."""
    base = [int(x) for x in version.split(".")]
    new = list(base)
    k, delta, length, tail = how
    k = min(k, len(new) - 1)
    new[k] += delta
    if new[k] < 0:
        new[k] = 0
    if length == 1:
        new.append(tail)
    elif length == -1:
        new = new[:-1]
    pad = max(len(base), len(new))
    a = new + [0] * (pad - len(new))
    b = base + [0] * (pad - len(base))
    return ".".join(map(str, new)), (a > b) - (a < b)


def check(ctx, case):
    s, level = case["settings"], case["level"]
    opts = {k: case[v] for k, v in (("ignore_errors", "ie"), ("check_ambiguity", "ca")) if case[v] is not None}
    want_ie = case["stored_ie"] if case["ie"] is None else case["ie"]

    # what loading must be equivalent to
    first = Script()
    build(first, s, ignore_errors=case["stored_ie"])
    build(first, s, to="w", ignore_errors=want_ie)
    base = c09.observe(first, "w", case)
    amb = first.call("GT.from_dict", gen.scripted_settings(s), to="amb")
    ver = first.add("get", f=["g", "graphtransliterator_version"])
    dump = first.call(["g", "dump"], level, ret=True, to="d")
    res = ctx.run(first)
    res[0].need()
    want = c09.view(res[base[0]].v)
    data = res[dump].v
    current = res[ver].v
    later, order = derive(current, case["version"])
    ambiguous = not res[amb].ok

    sc = Script()
    build(sc, s, ignore_errors=case["stored_ie"])
    sc.call(["g", "dump"], level, to="d")
    if case["text"]:
        sc.call("json.dumps", r("d"), to="d")
        sc.call("json.loads", r("d"), to="d")
    sc.add("hold", r="d")
    sc.call("copy.deepcopy", r("d"), to="e")
    dropped = []
    for name in case["drop"]:
        if name in ("edge_list",):
            if level == 0 and "graph" not in case["drop"]:
                sc.call(["e", "get"], "graph", to="gr")
                sc.call(["gr", "pop"], name, None, ret=False)
                dropped.append(name)
        elif name == "metadata":
            if level == 0 and not s.get("metadata"):
                sc.call(["e", "pop"], name, None, ret=False)
        elif name == "ignore_errors":
            if case["ie"] is not None or not case["stored_ie"]:
                sc.call(["e", "pop"], name, None, ret=False)
                dropped.append(name)
        elif name in data:
            sc.call(["e", "pop"], name, None, ret=False)
            dropped.append(name)
    sc.add("hold", r="e")

    def load(src, to, **k):
        if case["text"]:
            sc.call("json.dumps", r(src), to="txt")
            return sc.call("GT.loads", r("txt"), to=to, k=k)
        return sc.call("GT.load", r(src), to=to, k=k)

    plain = load("d", "plain", **opts)
    part = load("e", "part", **opts)
    obs = {"with options %r" % opts: c09.observe(sc, "plain", case), "without %r, options %r" % (dropped, opts): c09.observe(sc, "part", case)}
    # versions
    sc.call("copy.deepcopy", r("d"), to="v")
    sc.call(["v", "update"], {"graphtransliterator_version": later}, ret=False)
    vers = load("v", "vers")
    vstate = sc.add("many", g="vers", s=case["inputs"])
    same = [sc.add("same", r="d"), sc.add("same", r="e")]
    # lookup without rules
    if level == 0:
        sc.call("copy.deepcopy", r("d"), to="n")
        if case["no_onmatch"] == "absent":
            sc.call(["n", "pop"], "onmatch_rules", None, ret=False)
        else:
            sc.call(["n", "update"], {"onmatch_rules": case["no_onmatch"]}, ret=False)
        sc.call(["n", "update"], {"onmatch_rules_lookup": {"\x01d": list(case["lookup"].items())}}, ret=False)
        nolook = load("n", "nolook")
    got = ctx.run(sc)
    for k in (plain, part):
        if ambiguous and case["ca"]:
            ensure(got[k].exc == res[amb].exc, "check_ambiguity=True on load: %r, expected %s", got[k].raw, res[amb].exc)
        else:
            ensure(got[k].ok, "load with %r without %r failed: %s %s", opts, dropped, got[k].exc, got[k].msg)
    if not (ambiguous and case["ca"]):
        outs, toks, sweep = c09.norm_out(res[base[1]].v), res[base[2]].v, c09.norm_sweep(res[base[3]].v)
        for what, idx in obs.items():
            st = c09.view(got[idx[0]].v)
            for key in want:
                ensure(st[key] == want[key] or (not st[key] and not want[key] and key == "metadata"), "loaded %s: %s is %r, not %r", what, key, st[key], want[key])
            ensure(c09.norm_out(got[idx[1]].v) == outs, "loaded %s: outputs %r, not %r", what, got[idx[1]].v, outs)
            ensure(got[idx[2]].v == toks, "loaded %s: tokens %r, not %r", what, got[idx[2]].v, toks)
            ensure(c09.norm_sweep(got[idx[3]].v) == sweep, "loaded %s: matches %r, not %r", what, got[idx[3]].v, sweep)
    if order > 0:
        ensure(got[vers].exc == "IncorrectVersionException", "version %s (current %s): %r", later, current, got[vers].raw)
    else:
        ensure(got[vers].ok, "version %s (current %s) refused: %s %s", later, current, got[vers].exc, got[vers].msg)
    for k in same:
        ensure(got[k].v is True, "load modified the settings passed to it")
    if level == 0:
        ensure(got[nolook].exc == "ValidationError", "lookup without on-match rules: %r", got[nolook].raw)
    tricky = (later > current) != (order > 0)
    contradicts = case["ie"] is not None and case["ie"] != case["stored_ie"] or (case["ca"] and ambiguous)
    for n, b in (("version out of text order", tricky), ("option contradicts stored", contradicts), ("later version", order > 0), ("fields left out", len(dropped) > 1), ("ambiguous and checked", ambiguous and case["ca"])):
        if b:
            ctx.label(n)
    ctx.nontrivial = bool(tricky or contradicts or len(dropped) > 1)
