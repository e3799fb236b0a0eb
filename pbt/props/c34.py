"""Trackers over a directed graph: what was read of it, what was not."""
import re

from .. import gen
from ..client import Script, d
from ..runner import ensure

EXAMPLES = {"quick": 1200, "thorough": 8000}
RULE = (
    "A case is a directed graph (with cycles, loops and unreachable nodes) and up to 30 steps over two trackers of it and the graph itself: reading "
    "nodes (from either end, or several), edges and what does not exist, going through "
    "everything, measuring, asking for costs, checking, clearing and making a tracker of a tracker. After every step each "
    "tracker's report is compared with the set of what was read. Non-trivial: at some point a "
    "tracker has both read and missed nodes or edges, and one was cleared or both were read."
)
ASSUMPTIONS = ["Trackers are of a finished graph: nothing is added to them; get() and other inherited methods of the containers are not tried."]
EXC = "IncompleteGraphCoverageException"


def case(draw, tier):
    g = gen.G(draw, tier)
    n = g.pick([0, 1, 2, 3, 4, 6, 12, 12, 40])
    nodes = [g.pick([{}, {"token": "a"}, {"n": k}, {"type": "(0, 1)", "x": [1]}]) for k in range(n)]
    edges = {}
    if n:
        for _ in range(g.int(0, g.pick([min(2 * n, 30)] * 12 + [150]))):
            a, b = g.int(0, n - 1), g.int(0, n - 1)
            edges["%d %d" % (a, b)] = g.pick([{}, {"cost": 0.5}, {"token": "b", "cost": 0.25}, {"cost": 0}])
    pairs = [[int(x) for x in k.split()] for k in edges]
    steps = []
    for _ in range(g.int(1, 30)):
        who = g.pick([0, 0, 0, 1, 1, 2])
        how = g.int(0, 16)
        if how <= 3 and n:
            steps.append([who, "node", [g.int(0, n - 1) if g.chance(5, 6) else g.int(-n, -1)]])
        elif how <= 7 and pairs:
            steps.append([who, g.pick(["edge", "edge", "edge", "edge of item"]), g.pick(pairs)])
        elif how == 8:
            ends = [g.pick([None, g.int(0, n + 1), g.int(-n - 1, n + 1)]) for _ in range(2)]
            steps.append([who, "nodes", ends + [g.pick([None, 1, 2, -1])]])
        elif how == 9:
            if g.chance(1, 2) or not n:
                steps.append([who, "node", [g.pick([n, n + 3, -n - 1])]])
            else:
                steps.append([who, "edge", [g.int(0, n), g.int(0, n)]])
        elif how == 10 and n:
            steps.append([who, "all", [g.chance(1, 2), g.chance(2, 3), g.int(0, n - 1), g.int(0, 30)]])
        elif how == 11 and pairs:
            steps.append([who, "cost", g.pick(pairs)])
        elif how == 12:
            steps.append([who, g.pick(["len", "iterate", "list", "iterate"]), []])
        elif how == 13 and pairs:
            steps.append([who, g.pick(["tails", "in"]), g.pick(pairs)])
        elif how == 14:
            steps.append([g.int(0, 1), "check", [g.chance(1, 2)]])
        elif how == 15:
            steps.append([g.int(0, 1), "clear", []])
        elif how == 16 and g.chance(1, 2):
            steps.append([g.int(0, 1), "anew", []])
    return {"nodes": nodes, "edges": edges, "steps": steps}


def told(rep):
    """Missed nodes and edges, by the message of the exception and the result without one."""
    hard, soft = rep
    nodes, edges = set(), set()
    if hard[0] == "e":
        ensure(hard[1] == EXC, "coverage check raised %r", hard)
        edges = {(int(a), int(b)) for a, b in re.findall(r"\((\d+), ?(\d+)\)", hard[2])}
        nodes = {int(x) for x in re.findall(r"\d+", re.sub(r"\(\d+, ?\d+\)", "", hard[2]))}
        ensure(nodes or edges, "coverage exception names nothing: %r", hard)
        ensure(soft == ["v", False], "check without raising gave %r, with raising %r", soft, hard)
    else:
        ensure(hard == ["v", True] and soft == ["v", True], "coverage check gave %r, without raising %r", hard, soft)
    return nodes, edges


def check(ctx, case):
    nodes = case["nodes"]
    edges = {tuple(int(x) for x in k.split()): v for k, v in case["edges"].items()}
    n, order = len(nodes), sorted(edges)
    steps = []
    for who, what, args in case["steps"]:
        if what == "all":  # nearly everything
            but_node, but_edge, i, j = args
            steps += [[who, "node", [k]] for k in range(n) if not (but_node and k == i)]
            steps += [[who, "edge", list(e)] for k, e in enumerate(order) if not (but_edge and k == j % len(order))]
        else:
            steps.append([who, what, args])
    sc = Script()
    sc.call("DG", to="g")
    for x in nodes:
        sc.call(["g", "add_node"], d(x), ret=False)
    for (a, b), x in edges.items():
        sc.call(["g", "add_edge"], a, b, d(x), ret=False)
    before = sc.add("dg", g="g")
    k = sc.add("track", g="g", steps=steps)
    after = sc.add("dg", g="g")
    res = ctx.run(sc)
    ensure(res[before].v == res[after].v, "reading trackers changed the graph from %r to %r", res[before].v, res[after].v)
    read = [[set(), set()], [set(), set()]]
    cleared, some = set(), set()
    for (who, what, args), (got, reps) in zip(steps, res[k].v):
        mine = read[who] if who < 2 else [set(), set()]
        want, refused = None, False
        if what == "node":
            refused = not -n <= args[0] < n
            if not refused:
                mine[0].add(args[0] % n)
                want = nodes[args[0]]
        elif what == "nodes":
            mine[0].update(range(n)[slice(*args)])
            want = nodes[slice(*args)]
        elif what in ("edge", "edge of item"):
            refused = tuple(args) not in edges
            if not refused:
                mine[1].add(tuple(args))
                want = edges[tuple(args)]
        elif what == "tails":
            want = sorted(t for h, t in edges if h == args[0])
        elif what == "cost":
            want = edges[tuple(args)].get("cost", 0)
        elif what == "clear":
            mine[0].clear(), mine[1].clear()
            cleared.add(who)
        elif what == "anew":
            read[1 - who] = [set(), set()]
        elif what == "len":
            want = [n, len({h for h, _ in edges}), len(edges)]
        elif what == "list":
            want = None
            ensure(got[0] == "v" and sorted(map(tuple, got[1])) == order, "edge list is %r, edges %r", got, order)
        if refused:
            ensure(got[0] == "e" and got[1] in ("IndexError", "KeyError"), "%s %r of what does not exist gave %r", what, args, got)
            ctx.label("read what does not exist")
        elif want is not None:
            ensure(got == ["v", want], "%s %r gave %r, not %r", what, args, got, want)
        elif what != "check":
            ensure(got[0] == "v", "%s %r raised %r", what, args, got)
        for v, rep in enumerate(reps):
            a, b = told(rep)
            need = set(range(n)) - read[v][0], set(edges) - read[v][1]
            ensure((a, b) == need, "after %s %r of %d: tracker %d misses %r and %r, but read were %r and %r", what, args, who, v, sorted(a), sorted(b), sorted(read[v][0]), sorted(read[v][1]))
            if (a or b) and (read[v][0] or read[v][1]):
                some.add(v)
            if not a and not b and n:
                ctx.label("everything read")
        ctx.label(what)
    ctx.nontrivial = bool(some) and (bool(cleared) or len(some) > 1)

