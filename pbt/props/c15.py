"""Histories of operations on a directed graph against a plain model."""
from .. import gen
from ..client import Script, d, r, t
from ..runner import ensure

EXAMPLES = {"quick": 2000, "thorough": 9000}
RULE = (
    "A case is a history of up to 25 operations on a graph: add nodes and edges with valid and "
    "invalid arguments of many types, again over existing edges, and rebuild the graph from its "
    "parts (edge list given, absent or shuffled) and go on. The whole graph is compared after "
    "every operation. Non-trivial: at least three distinct edges, an edge added again, and "
    "an invalid operation."
)
DATA = [None, {}, {"a": 1}, {"token": "x", "cost": 0.5}, {"n": {"m": [1, 2]}}, {"cost": 0}]
BAD_DATA = ["x", 3, [], ["a"], [["a", 1]], True, 1.5, ""]
BAD_INDEX = ["0", 1.0, None, [0], True, False, -1, -2, 1000, "x", 0.0]


def case(draw, tier):
    g = gen.G(draw, tier)
    hist = []
    n = 0
    for _ in range(g.int(1, 25 if tier == "quick" else 40)):
        how = g.int(0, 13)
        if how <= 3 or n == 0 and how < 11:
            hist.append(["node", g.pick(DATA), g.chance(1, 3)])
            n += 1
        elif how <= 8:
            hist.append(["edge", g.int(0, n - 1), g.int(0, n - 1), g.pick(DATA), g.chance(1, 3)])
        elif how == 9:
            hist.append(["bad node", g.pick(BAD_DATA)])
        elif how == 10:
            a, b = g.pick([0, n - 1, n]), g.pick([n, n, -1, -n, n + 5])
            if g.chance(1, 2):
                a, b = b, a
            hist.append(["bad edge", a, b, g.pick(DATA)])
        elif how == 11:
            a, b = g.pick([0, max(n - 1, 0)]), g.pick(BAD_INDEX)
            if g.chance(1, 2):
                a, b = b, a
            hist.append(["bad edge", a, b, g.pick(DATA)])
        elif how == 12:
            if n:
                hist.append(["bad edge", g.int(0, n - 1), g.int(0, n - 1), g.pick(BAD_DATA)])
        else:
            hist.append(["rebuild", g.pick(["none", "list", "shuffled", "copy"])])
    return {"hist": hist}


def check(ctx, case):
    sc = Script()
    sc.call("DG", to="g")
    plan = []
    snap = sc.add("dg", g="g")
    plan.append((None, None, snap))
    given = []
    for h in case["hist"]:
        what = h[0]
        if what in ("node", "bad node"):
            args = [h[1]] if not (h[1] is None and what == "node" and h[2]) else []
            k = sc.call(["g", "add_node"], *[mark(a) for a in args], ret=True)
        elif what in ("edge", "bad edge"):
            args = [h[1], h[2], h[3]]
            if h[3] is None and what == "edge" and h[4]:
                args = args[:2]
            k = sc.call(["g", "add_edge"], *[mark(a) for a in args], ret=True)
        else:
            sc.add("get", f=["g", "node"], to="n")
            sc.add("get", f=["g", "edge"], to="e")
            sc.add("get", f=["g", "edge_list"], to="l")
            kw = {"node": r("n"), "edge": r("e")}
            if h[1] in ("list", "copy"):
                kw["edge_list"] = r("l")
            elif h[1] == "shuffled":
                sc.call(["l", "copy"], to="l")
                sc.call(["l", "reverse"], ret=False)
                own = "l%d" % len(plan)
                sc.call("builtins.list", r("l"), to=own)
                given.append((own, sc.call("builtins.list", r(own), ret=True)))
                kw["edge_list"] = r(own)
            if h[1] == "copy":
                for x in "nel":
                    sc.call("copy.deepcopy", r(x), to=x)
            k = sc.call("DG", to="g", k=kw)
        plan.append((h, k, sc.add("dg", g="g")))
    given = [(k, sc.call("builtins.list", r(own), ret=True)) for own, k in given]
    res = ctx.run(sc)
    for k, last in given:
        ensure(res[k].v == res[last].v, "a graph was made of the edge list %r, and the list became %r", res[k].v, res[last].v)
    nodes, edges = [], {}
    again = bad = False
    for h, k, snap in plan:
        if h is None:
            pass
        elif h[0] == "node":
            data = h[1] or {}
            ensure(res[k].v == (len(nodes), data), "%r returned %r", h, res[k].v)
            nodes.append(data)
        elif h[0] == "edge":
            data = h[3] or {}
            ensure(res[k].v == data, "%r returned %r", h, res[k].v)
            again = again or (h[1], h[2]) in edges
            edges[h[1], h[2]] = data
        elif h[0] in ("bad node", "bad edge"):
            # the drawn arguments may turn out to be valid in the graph as it is
            if h[0] == "bad edge" and all(type(x) is int and 0 <= x < len(nodes) for x in h[1:3]) and (h[3] is None or isinstance(h[3], dict)):
                ensure(res[k].v == (h[3] or {}), "%r returned %r", h, res[k].v)
                again = again or (h[1], h[2]) in edges
                edges[h[1], h[2]] = h[3] or {}
            else:
                bad = True
                ensure("ValueError" in res[k].mro, "%r gave %r, not a ValueError", h, res[k].raw)
        else:
            ensure(res[k].ok, "%r failed: %s %s", h, res[k].exc, res[k].msg)
        got = res[snap].v
        flat = {(a, b): data for a, tails in got["edge"].items() for b, data in tails.items()}
        ensure(got["node"] == nodes, "after %r the nodes are %r, not %r", h, got["node"], nodes)
        if h is not None and h[0].startswith("bad") and not res[k].ok:
            ensure(got == before, "%r was refused and left %r, the graph was %r", h, got, before)
        before = got
        ensure(flat == edges, "after %r the edges are %r, not %r", h, flat, edges)
        ensure(sorted(tuple(x) for x in got["edge_list"]) == sorted(edges), "after %r the edge list is %r, the edges are %r", h, got["edge_list"], sorted(edges))
        if h is not None:
            ctx.label(h[0])
    ctx.nontrivial = len(edges) >= 3 and again and bad


def mark(x):
    return d(x) if isinstance(x, dict) else x
