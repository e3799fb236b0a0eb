"""The rule graph against the rules it was made from."""
import math

from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 600, "thorough": 7000}
RULE = (
    "A case is a configuration (shared prefixes, equal token sequences with different contexts, "
    "up to about 40 rules); the graph of the transliterator built from it, of a pruned one, and "
    "of ones loaded from dumps or from the rules in another order without a graph is walked. Non-trivial: at least four rules, two of which share "
    "a first token but differ, and some rule has context."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    big = g.chance(1, 6)
    s = gen.settings(g, huge=150, max_rules=25 if big else 9, complete=g.chance(1, 3))
    moves = [[g.int(0, 60), g.int(0, 60)] for _ in range(g.int(0, 4))]
    return {"settings": s, "moves": moves, "prune": g.pick([x["production"] for x in s["rules"]]), "level": g.int(0, 2)}


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9)


def check_graph(what, graph, rules):
    node, edge = graph["node"], graph["edge"]
    edges = {(h, t): data for h, tails in edge.items() for t, data in tails.items()}
    listed = sorted(tuple(x) for x in graph["edge_list"])
    ensure(listed == sorted(edges), "%s: edge list %r, edges %r", what, listed, sorted(edges))
    parent = {}
    for h, t in edges:
        ensure(0 <= h < len(node) and 0 <= t < len(node), "%s: edge (%r, %r) of %d nodes", what, h, t, len(node))
        ensure(t not in parent and t != 0, "%s: node %r has two parents or is the root", what, t)
        parent[t] = h
    ensure(node and node[0].get("type") == "Start" and not node[0].get("accepting"), "%s: root %r", what, node[:1])
    ensure(len(parent) == len(node) - 1, "%s: %d nodes but %d with a parent", what, len(node), len(parent))
    children = {n: [] for n in range(len(node))}
    for t, h in parent.items():
        children[h].append(t)
    path = {0: []}
    order = [0]
    for n in order:
        for t in children[n]:
            path[t] = path[n] + ([node[t].get("token")] if not node[t].get("accepting") else [])
            order.append(t)
    ensure(len(order) == len(node), "%s: nodes not reachable from the root", what)
    seen = {}
    least = {}
    for n in reversed(order):
        data = node[n]
        if data.get("accepting"):
            k = data.get("rule_key")
            ensure(not children[n], "%s: accepting node %d has children", what, n)
            ensure(type(k) is int and 0 <= k < len(rules), "%s: rule key %r", what, k)
            ensure(k not in seen, "%s: rule %d at nodes %d and %r", what, k, n, seen.get(k))
            seen[k] = n
            rule = rules[k]
            ensure(path[n] == list(rule["tokens"]), "%s: rule %d is at %r, its tokens are %r", what, k, path[n], rule["tokens"])
            got = {a: list(b) for a, b in (edges[parent[n], n].get("constraints") or {}).items() if b}
            want = {c: list(rule[c]) for c in model.CONTEXTS if rule.get(c)}
            ensure(got == want, "%s: constraints %r on the way to rule %r", what, got, rule)
            least[n] = rule["cost"]
        else:
            ensure(n == 0 or children[n], "%s: node %d is a leaf without rule", what, n)
            if n:
                ensure(edges[parent[n], n].get("token") == data.get("token"), "%s: edge to %d has token %r, node %r", what, n, edges[parent[n], n], data)
                ensure(not edges[parent[n], n].get("constraints"), "%s: constraints on the edge to token node %d", what, n)
            toks = [node[t]["token"] for t in children[n] if not node[t].get("accepting")]
            ensure(len(set(toks)) == len(toks), "%s: siblings with equal tokens %r", what, toks)
            if children[n]:
                least[n] = min(least[t] for t in children[n])
        if n and n in least:
            ensure(close(edges[parent[n], n].get("cost", -1), least[n]), "%s: edge to node %d costs %r, least rule below %r", what, n, edges[parent[n], n].get("cost"), least[n])
    ensure(sorted(seen) == list(range(len(rules))), "%s: rules %r of %d are in the graph", what, sorted(seen), len(rules))
    for n in range(len(node)):
        if node[n].get("accepting"):
            continue
        rule_kids = [t for t in children[n] if node[t].get("accepting")]
        want = {node[t]["token"]: [t] + rule_kids for t in children[n] if not node[t].get("accepting")}
        if rule_kids:
            want["__rules__"] = rule_kids
        got = node[n].get("ordered_children") or {}
        ensure(set(got) == set(want), "%s: node %d records children for %r, has %r", what, n, list(got), list(want))
        for key, kids in want.items():
            ensure(sorted(got[key]) == sorted(kids), "%s: node %d, token %r: children %r, not %r", what, n, key, got[key], kids)
            costs = [edges[n, t]["cost"] for t in got[key]]
            ensure(all(a <= b or close(a, b) for a, b in zip(costs, costs[1:])), "%s: node %d, token %r: costs %r out of order", what, n, key, costs)


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s)
    sc.call(["g", "pruned_of"], [case["prune"]], to="pruned")
    sc.call(["g", "dump"], case["level"], to="d")
    sc.call("GT.load", r("d"), to="loaded")
    sc.call(["g", "dumps"], case["level"], to="d")
    sc.call("GT.loads", r("d"), to="loadeds")
    # the same rules in another order, for which a graph has to be made
    sc.call(["g", "dump"], 0, to="d")
    sc.call(["d", "pop"], "graph")
    sc.call(["d", "get"], "rules", to="l")
    sc.call(["l", "reverse"])
    n = len(s["rules"])
    for a, b in case.get("moves", []):
        sc.call(["l", "pop"], a % n, to="x")
        sc.call(["l", "insert"], b % n, r("x"))
    sc.call("GT.load", r("d"), to="reordered")
    for attr in ("tokens", "rules", "whitespace"):
        sc.add("get", f=["reordered", attr], to=attr)
    sc.call("GT", r("tokens"), r("rules"), r("whitespace"), to="made", k={"check_ambiguity": False})
    idx = {n: (sc.add("state", g=n), sc.add("graph", g=n)) for n in ("g", "pruned", "loaded", "loadeds", "reordered", "made")}
    res = ctx.run(sc)
    for x in res:
        if x.op.get("to"):
            x.need()
    for n, (a, b) in idx.items():
        check_graph(n if n != "g" else "built from settings", res[b].v, res[a].v["rules"])
    rules = res[idx["g"][0]].v["rules"]
    ensure(sorted(map(model.norm_rule, rules)) == sorted(map(model.norm_rule, s["rules"])), "rules %r", rules)
    firsts = [x["tokens"][0] for x in s["rules"]]
    seqs = [tuple(x["tokens"]) for x in s["rules"]]
    if len(set(seqs)) < len(seqs):
        ctx.label("equal token sequences")
    if len(rules) > 9:
        ctx.label("more than 9 rules")
    ctx.label("level %d" % case["level"])
    ctx.nontrivial = len(rules) >= 4 and len(set(firsts)) < len(firsts) and any(model.required(x) > len(x["tokens"]) for x in s["rules"])
