"""Histories over a coverage-tracking transliterator: what must and what must not be covered."""
import re

from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from .common import strip_empty_contexts

EXAMPLES = {"quick": 600, "thorough": 4000}
RULE = (
    "A case is a configuration and a history of up to 14 operations on a coverage-tracking "
    "transliterator: transliterate, match one or all, tokenize, dump, iterate, prune, check with "
    "and without raising, clear. After every operation the reported misses are compared with a "
    "lower bound (all of the path of what matched) and an upper bound (what any match attempt "
    "could examine). Non-trivial: something is covered, something is missed, and a clearing or "
    "a check happens before a later match."
)
GRAPH_EXC, ON_EXC = "IncompleteGraphCoverageException", "IncompleteOnMatchRulesCoverageException"


def case(draw, tier):
    g = gen.G(draw, tier)
    s = strip_empty_contexts(gen.settings(g, huge=150, max_rules=g.pick([2, 4, 7]), odd_classes=False, complete=g.chance(1, 2)))
    onm = s.get("onmatch_rules") or []
    if onm and g.chance(1, 5):  # the same rule twice
        onm.insert(g.int(0, len(onm)), dict(g.pick(onm)))
    hist = []
    for _ in range(g.int(1, 14)):
        how = g.int(0, 12)
        if how <= 3:
            hist.append(["trans", gen.text_input(g, s, unknown=g.chance(1, 6), max_segments=g.pick([1, 2, 6]))])
        elif how <= 5:
            toks = gen.framed(g, s, 2)
            hist.append(["match", toks, g.int(0, len(toks) - 1), g.chance(1, 2)])
        elif how == 6:
            hist.append(["clear"])
        elif how == 7:
            hist.append(["tokenize", gen.text_input(g, s)])
        elif how == 8:
            hist.append(["dump", g.pick(["dump", "dumps"]), g.int(0, 2)])
        elif how == 9:
            hist.append(["inspect", g.int(0, 3)])
        elif how == 10:
            hist.append(["prune", g.pick([x["production"] for x in s["rules"]])])
        elif how == 11:
            hist.append(["check", g.chance(1, 2)])
        else:
            # everything the rules can match, one after the other
            hist.append(["all", ["".join(gen.layout(g, s, x)) for x in s["rules"][:12]]])
    return {"settings": s, "ie": g.chance(1, 3), "via": g.pick(["parts", "graph"]), "hist": hist}


def misses(rep):
    """Missed nodes, edges and on-match rules, from the messages of the exceptions."""
    graph, onm = rep["graph"]["r"], rep["onmatch"]["r"]
    nodes, edges, on = set(), set(), set()
    if graph[0] == "e":
        ensure(graph[1] == GRAPH_EXC, "graph coverage check raised %r", graph)
        edges = {(int(a), int(b)) for a, b in re.findall(r"\((\d+), ?(\d+)\)", graph[2])}
        rest = re.sub(r"\(\d+, ?\d+\)", "", graph[2])
        nodes = {int(x) for x in re.findall(r"\d+", rest)}
        ensure(nodes or edges, "graph coverage exception names nothing: %r", graph)
    else:
        ensure(graph[1] is True, "graph coverage check returned %r", graph)
    if onm[0] == "e":
        ensure(onm[1] == ON_EXC, "on-match coverage check raised %r", onm)
        on = {int(x) for x in re.findall(r"\d+", onm[2])}
        ensure(on, "on-match coverage exception names nothing: %r", onm)
    else:
        ensure(onm[1] is True, "on-match coverage check returned %r", onm)
    # the combined check raises what the parts raise, first the graph's
    want = graph if graph[0] == "e" else onm
    ensure(rep["all"]["r"] == want, "combined check gave %r, the parts %r and %r", rep["all"]["r"], graph, onm)
    return nodes, edges, on


def check(ctx, case):
    s, hist = case["settings"], case["hist"]
    sc = Script()
    sc.call("GT.from_dict", gen.scripted_settings(s), to="p", k={"check_ambiguity": False, "ignore_errors": case["ie"]})
    parts = ["tokens", "rules", "whitespace", "onmatch_rules", "metadata"] + ["graph"] * (case["via"] == "graph")
    for attr in parts:
        sc.add("get", f=["p", attr], to=attr)
    k = {x: r(x) for x in parts[3:]}
    sc.call("CT", r("tokens"), r("rules"), r("whitespace"), to="c", k=dict(k, ignore_errors=case["ie"], check_ambiguity=False))
    rules = sc.add("get", f=["p", "rules"])
    pstate = sc.add("state", g="p")
    graph = sc.add("graph", g="p")
    plan = [(["new"], None, None, sc.add("visited", g="c", **{"raise": True}), None)]
    for h in hist:
        a = b = None
        if h[0] in ("trans", "all"):
            texts = [h[1]] if h[0] == "trans" else h[1]
            a = sc.add("many", g="c", s=texts, full=True)
            b = sc.add("many", g="p", s=texts, full=True)
        elif h[0] == "match":
            k = {"match_all": True} if h[3] else {}
            a = sc.call(["c", "match_at"], h[2], h[1], k=k, ret=True)
            b = sc.call(["p", "match_at"], h[2], h[1], k=k, ret=True)
        elif h[0] == "clear":
            a = sc.call(["c", "clear_visited"], ret=False)
        elif h[0] == "tokenize":
            a = sc.add("tokenize", g="c", s=[h[1]])
        elif h[0] == "dump":
            a = sc.call(["c", h[1]], h[2], ret=False)
        elif h[0] == "inspect":
            a = sc.add(["state", "graph", "iterate", "iterate"][h[1]], g="c")
        elif h[0] == "prune":
            a = sc.call(["c", "pruned_of"], [h[1]], to="x")
            sc.add("many", g="x", s=[t for t in ["".join(q["tokens"]) for q in s["rules"][:5]]])
        elif h[0] == "check":
            a = sc.add("visited", g="c", **{"raise": h[1]})
        soft = sc.add("visited", g="c", **{"raise": False})
        plan.append((h, a, b, sc.add("visited", g="c", **{"raise": True}), soft))
    res = ctx.run(sc)
    for x in res:
        if x.op.get("to"):
            x.need()
    rules = res[rules].v
    rules = [x if isinstance(x, dict) else dict(x) for x in rules]
    onm = res[pstate].v["onmatch_rules"] or []
    graph = res[graph].v
    node = graph["node"]
    all_edges = {(h, t) for h, tails in graph["edge"].items() for t in tails}
    parent = {t: h for h, t in all_edges}

    def toks_to(n):
        out = []
        while n:
            if not node[n].get("accepting"):
                out.append(node[n]["token"])
            n = parent[n]
        return out[::-1]

    path = {n: toks_to(n) for n in range(len(node))}
    leaf = {node[n]["rule_key"]: n for n in range(len(node)) if node[n].get("accepting")}
    cls = {t: set(c) for t, c in s["tokens"].items()}
    lo_n, lo_e, lo_o = set(), set(), set()
    up_n, up_e, up_o = set(), set(), set()
    some = late = False
    barrier = False

    def matched(k):
        n = leaf[k]
        lo_n.add(0)
        while n:
            lo_n.add(n)
            lo_e.add((parent[n], n))
            n = parent[n]

    def tried(toks, i):
        for n in range(len(node)):
            p = path[n]
            if toks[i : i + len(p)] == p:
                up_n.add(n)
                if n:
                    up_e.add((parent[n], n))

    def onmatch_tried(toks, i):
        last = first_onmatch(s, toks, i) if i else None  # later ones are of no use
        for k, o in enumerate(onm[: None if last is None else last + 1]):
            if i and o["prev_classes"][-1] in cls[toks[i - 1]] and o["next_classes"][0] in cls[toks[i]]:
                up_o.add(k)

    for h, a, b, rep, soft in plan:
        if h[0] in ("trans", "all"):
            x, y = res[a].v, res[b].v
            ensure(x == y, "coverage-tracking gives %r, plain %r for %r", x, y, h)
            texts = [h[1]] if h[0] == "trans" else h[1]
            for text, out in zip(texts, x):
                if "v" in out:
                    toks = out["tokens"]
                    i, k = 1, 0
                    used = [rule_index(rules, q) for q in out["rules"]]
                    st = model.Run(s, rules, toks, case["ie"], chooser(rules, used))
                    for key, at, ins in zip(st.used, st.starts, st.inserted):
                        matched(key)
                        onmatch_tried(toks, at)
                        if ins is not None:
                            lo_o.add(first_onmatch(s, toks, at))
                    for at in st.starts + st.missed:
                        tried(toks, at)
                else:
                    try:
                        toks = model.tokenize(s, text, case["ie"])
                    except model.Unrecognizable:
                        continue
                    for at in range(1, len(toks) - 1):
                        tried(toks, at)
                        onmatch_tried(toks, at)
        elif h[0] == "match":
            x, y = res[a], res[b]
            ensure(x.ok and x.raw == y.raw, "coverage-tracking match gives %r, plain %r for %r", x.raw, y.raw, h)
            found = x.v if isinstance(x.v, list) else [x.v] if x.v is not None else []
            for k in found:
                matched(k)
            tried(h[1], h[2])
            up_n.add(0)
        elif h[0] == "clear":
            ensure(res[a].ok, "clear_visited failed: %r", res[a].raw)
            for x in (lo_n, lo_e, lo_o, up_n, up_e, up_o):
                x.clear()
            barrier = True
        elif a is not None:
            res[a].need()
            barrier = barrier or h[0] in ("check", "dump", "inspect")
        # a visit attempted anywhere examines the root
        if h[0] in ("trans", "all", "match") and up_n:
            up_n.add(0)
        n, e, o = misses(res[rep].v)
        ensure(n <= set(range(len(node))) and e <= all_edges and o <= set(range(len(onm))), "misses %r %r %r do not exist", n, e, o)
        ensure(not n & lo_n, "after %r: nodes %r were matched through but are reported missed", h, sorted(n & lo_n))
        ensure(not e & lo_e, "after %r: edges %r were matched through but are reported missed", h, sorted(e & lo_e))
        ensure(not o & lo_o, "after %r: on-match rules %r were applied but are reported missed", h, sorted(o & lo_o))
        cn, ce, co = set(range(len(node))) - n, all_edges - e, set(range(len(onm))) - o
        ensure(cn <= up_n, "after %r: nodes %r count as covered but nothing could have examined them", h, sorted(cn - up_n))
        ensure(ce <= up_e, "after %r: edges %r count as covered but nothing could have examined them", h, sorted(ce - up_e))
        ensure(co <= up_o, "after %r: on-match rules %r count as covered but nothing could have examined them", h, sorted(co - up_o))
        if soft is not None:
            v = res[soft].v
            ensure(v["graph"]["r"] == ["v", not (n or e)], "graph check without raising gave %r, misses %r %r", v["graph"]["r"], n, e)
            ensure(v["onmatch"]["r"] == ["v", not o], "on-match check without raising gave %r, misses %r", v["onmatch"]["r"], o)
            ensure(v["all"]["r"] == ["v", not (n or e or o)], "check without raising gave %r, misses %r %r %r", v["all"]["r"], n, e, o)
        if cn and barrier:
            late = True
        if cn and (n or o):
            some = True
        if not (n or e or o):
            ctx.label("full coverage")
        ctx.label(h[0])
    ctx.nontrivial = some and late


def rule_index(rules, rule):
    want = model.norm_rule(rule)
    return [k for k, x in enumerate(rules) if model.norm_rule(x) == want]


def chooser(rules, used):
    feed = list(used)

    def choose(i, options):
        keys = feed.pop(0) if feed else options
        for k in options:
            if k in keys:
                return k
        return options[0]

    return choose


def first_onmatch(s, toks, i):
    for k, rule in enumerate(s.get("onmatch_rules") or []):
        if model.insertion(dict(s, onmatch_rules=[rule]), toks, i) is not None:
            return k
