import math

from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 500, "thorough": 4000}
RULE = (
    "A case is a configuration (any optional part present, empty or absent, ties, empty and odd "
    "productions, metadata of several shapes), a source (built from settings, pruned, or "
    "coverage-tracking), error-ignoring on or off, and inputs; it is dumped and loaded at every "
    "compression level as Python data and as JSON. Non-trivial: rules with context and either "
    "on-match rules, metadata or error-ignoring, and an input with at least two matched rules."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, max_rules=12 if g.chance(1, 4) else 7)
    return {
        "settings": s,
        "ie": g.chance(1, 3),
        "via": g.pick(["dict", "dict", "pruned", "cov"]),
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 4), long=60) for _ in range(g.int(1, 4))],
        "tokens": [gen.framed(g, s, 2)],
        "bad_level": g.pick([3, -1, 10, 4]),
    }


def view(st):
    """What must survive, in comparable form."""
    return {
        "tokens": st["tokens"],
        "rules": [model.norm_rule(x) for x in st["rules"]],
        "whitespace": st["whitespace"],
        "onmatch_rules": [
            (tuple(x["prev_classes"]), tuple(x["next_classes"]), x["production"])
            for x in st["onmatch_rules"] or []
        ],
        "metadata": st["metadata"],
        "ignore_errors": st["ignore_errors"],
        "tokenizer_pattern": st["tokenizer_pattern"],
        "lookup": st["lookup"] or None,
        "tokens_by_class": st["tokens_by_class"],
        "version": st["version"],
    }


def observe(sc, g, case):
    return [
        sc.add("state", g=g),
        sc.add("many", g=g, s=case["inputs"], full=True),
        sc.add("tokenize", g=g, s=case["inputs"]),
        sc.add("sweep", g=g, t=case["tokens"]),
    ]


def norm_out(outs):
    out = []
    for x in outs:
        x = dict(x)
        if "rules" in x:
            x["rules"] = [model.norm_rule(u) for u in x["rules"]]
        out.append(x)
    return out


def norm_sweep(sweep):
    return [
        [[c if not (c[0] == "v" and isinstance(c[1], list)) else ["v", sorted(c[1])] for c in cell] for cell in row]
        for row in sweep
    ]


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s, ignore_errors=case["ie"])
    if case["via"] == "pruned":
        sc.call(["g", "pruned_of"], s["rules"][0]["production"], to="g")
    elif case["via"] == "cov":
        for attr in ("tokens", "rules", "whitespace", "onmatch_rules", "metadata"):
            sc.add("get", f=["g", attr], to=attr)
        sc.call(
            "CT", r("tokens"), r("rules"), r("whitespace"), to="g",
            k={"onmatch_rules": r("onmatch_rules"), "metadata": r("metadata"), "ignore_errors": case["ie"], "check_ambiguity": False},
        )
    base = observe(sc, "g", case)
    groups = []
    for level in (0, 1, 2):
        for dump, load in (("dump", "load"), ("dumps", "loads")):
            reg = "%s%d" % (dump, level)
            sc.call(["g", dump], level, to="data")
            sc.call("GT." + load, r("data"), to=reg)
            groups.append((reg, observe(sc, reg, case)))
    # default levels
    sc.call(["g", "dumps"], to="data")
    sc.call("GT.loads", r("data"), to="defs")
    groups.append(("dumps default", observe(sc, "defs", case)))
    sc.call(["g", "dump"], to="data")
    sc.call("GT.load", r("data"), to="def")
    groups.append(("dump default", observe(sc, "def", case)))
    bad = [sc.call(["g", x], case["bad_level"], ret=False) for x in ("dump", "dumps")]
    res = ctx.run(sc)
    for x in res[: base[0]]:
        x.need()
    want_state = res[base[0]].v
    want = view(want_state)
    outs = norm_out(res[base[1]].v)
    toks, sweep = res[base[2]].v, norm_sweep(res[base[3]].v)
    for x in res:
        if x.op.get("to"):
            ensure(x.ok, "%r failed: %s %s", x.op, x.exc, x.msg)
    for name, idx in groups:
        got_state = res[idx[0]].v
        got = view(got_state)
        for key in want:
            ensure(
                got[key] == want[key], "after %s and load, %s is %r, was %r", name, key, got[key], want[key]
            )
        for a, b in zip(want_state["rules"], got_state["rules"]):
            ensure(
                math.isclose(a["cost"], b["cost"], rel_tol=1e-9), "cost of %r became %r by %s", a, b["cost"], name
            )
        ensure(norm_out(res[idx[1]].v) == outs, "after %s: outputs %r, were %r", name, res[idx[1]].v, outs)
        ensure(res[idx[2]].v == toks, "after %s: tokens %r, were %r", name, res[idx[2]].v, toks)
        ensure(norm_sweep(res[idx[3]].v) == sweep, "after %s: matches %r, were %r", name, res[idx[3]].v, sweep)
    for k in bad:
        ensure(res[k].exc == "ValueError", "compression level %r: %r", case["bad_level"], res[k].raw)
    contexts = any(model.required(x) > len(x["tokens"]) for x in s["rules"])
    extra = s.get("onmatch_rules") or s.get("metadata") or case["ie"]
    ctx.nontrivial = bool(contexts and extra and any(len(o.get("rules", [])) >= 2 for o in outs))
    ctx.label("via " + case["via"])
    for n, b in (
        ("contexts", contexts), ("on-match rules", s.get("onmatch_rules")), ("ignore errors", case["ie"]),
        ("metadata absent", "metadata" not in s), ("empty production", any(x["production"] == "" for x in s["rules"])),
    ):
        if b:
            ctx.label(n)
