"""Executes scripts of operations against the graphtransliterator found in VERIF_REPO.

Runs under the interpreter the code under test is built for (PyPy 3.9), or CPython.
Reads one JSON request per line on stdin, answers one JSON line on stdout.  Everything
the code under test does (values, exceptions, log records) comes back as data; this
process judges nothing.
"""
import collections
import copy
import io
import json
import logging
import os
import sys
import threading
import time

REPO = os.environ["VERIF_REPO"]
SITE = os.environ.get("VERIF_SITE")
sys.path.insert(0, REPO)
if SITE:
    sys.path.append(SITE)
SCRATCH = os.environ["VERIF_SCRATCH"]

_out = os.fdopen(os.dup(1), "w", encoding="utf-8", newline="\n")
os.dup2(2, 1)  # stray prints go to stderr
sys.setrecursionlimit(5000)

import graphtransliterator  # noqa: E402
from graphtransliterator import core as _core  # noqa: E402
from graphtransliterator import graphs as _graphs  # noqa: E402

if not os.path.realpath(graphtransliterator.__file__).startswith(
    os.path.realpath(REPO) + os.sep
):
    raise SystemExit("graphtransliterator imported from %s" % graphtransliterator.__file__)

R = "\x01r"


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:  # a broken log call is data as well
            msg = "<<unformattable %s>>" % type(e).__name__
        self.records.append([record.levelname, record.name, msg])


RECORDER = Recorder()
logging.getLogger().addHandler(RECORDER)
logging.getLogger().setLevel(logging.DEBUG)
for h in list(logging.getLogger().handlers):
    if h is not RECORDER:
        logging.getLogger().removeHandler(h)


class Repeating(list):
    """A list with few different members; each is sent once."""


def enc(x, depth=0):
    if isinstance(x, Repeating):
        table, index, seen = [], [], {}
        for item in x:
            if id(item) not in seen:
                seen[id(item)] = len(table)
                table.append(enc(item._asdict(), depth + 1))
            index.append(seen[id(item)])
        return {"R": table, "i": index}
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return x if x == x and x not in (float("inf"), float("-inf")) else {"F": repr(x)}
    if depth > 60:
        return {"O": "too deep"}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return {"N": type(x).__name__, "f": [[k, enc(getattr(x, k), depth + 1)] for k in x._fields]}
    if isinstance(x, tuple):
        return {"T": [enc(_, depth + 1) for _ in x]}
    if isinstance(x, list):
        return [enc(_, depth + 1) for _ in x]
    if isinstance(x, collections.UserList):
        return [enc(_, depth + 1) for _ in x.data]
    if isinstance(x, collections.UserDict):
        x = x.data
    if isinstance(x, collections.abc.Mapping):
        return {"D": [[enc(k, depth + 1), enc(x[k], depth + 1)] for k in x]}
    if isinstance(x, (set, frozenset)):
        return {"S": sorted((enc(_, depth + 1) for _ in x), key=lambda v: json.dumps(v))}
    return {"O": type(x).__name__}


def enc_exc(e):
    return {
        "e": type(e).__name__,
        "mro": [c.__name__ for c in type(e).__mro__],
        "gt": isinstance(e, graphtransliterator.exceptions.GraphTransliteratorException),
        "msg": str(e)[:2000],
    }


class Missing(Exception):
    pass


def path_of(name):
    p = os.path.join(SCRATCH, str(os.getpid()), name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def dec(x, regs):
    if isinstance(x, list):
        return [dec(_, regs) for _ in x]
    if isinstance(x, dict):
        if len(x) == 1:
            if R in x:
                if x[R] not in regs:
                    raise Missing(x[R])
                return regs[x[R]]
            if "\x01t" in x:
                return tuple(dec(_, regs) for _ in x["\x01t"])
            if "\x01s" in x:
                return set(dec(_, regs) for _ in x["\x01s"])
            if "\x01d" in x:
                return {dec(k, regs): dec(v, regs) for k, v in x["\x01d"]}
            if "\x01f" in x:
                return path_of(x["\x01f"])
            if "\x01b" in x:
                return x["\x01b"].encode("latin-1")
            if "\x01rule" in x:
                return graphtransliterator.TransliterationRule(**dec(x["\x01rule"], regs))
            if "\x01onmatch" in x:
                return graphtransliterator.OnMatchRule(**dec(x["\x01onmatch"], regs))
            if "\x01ws" in x:
                return graphtransliterator.WhitespaceRules(**dec(x["\x01ws"], regs))
        return {k: dec(v, regs) for k, v in x.items()}
    return x


ROOTS = {
    "M": graphtransliterator,
    "GT": _core.GraphTransliterator,
    "CT": _core.CoverageTransliterator,
    "DG": _graphs.DirectedGraph,
    "VDG": _graphs.VisitLoggingDirectedGraph,
    "VL": _graphs.VisitLoggingList,
    "VD": _graphs.VisitLoggingDict,
    "json": json,
    "copy": copy,
    "builtins": __import__("builtins"),
}


def root(name):
    if name == "TR" and name not in ROOTS:
        import graphtransliterator.transliterators as tr

        ROOTS["TR"] = tr
    return ROOTS[name]


def target(f, regs):
    """'GT.from_dict' -> function; ['g', 'method'] -> bound method of a register."""
    if isinstance(f, str):
        head, *rest = f.split(".")
        obj = root(head)
    else:
        head, *rest = f
        if head not in regs:
            raise Missing(head)
        obj = regs[head]
    for name in rest:
        obj = getattr(obj, name)
    return obj


def state(gt):
    """Everything a transliterator publishes, in plain form."""
    wh = gt.whitespace
    return {
        "tokens": {k: sorted(v) for k, v in gt.tokens.items()},
        "rules": [r._asdict() for r in gt.rules],
        "whitespace": wh._asdict(),
        "onmatch_rules": None
        if gt.onmatch_rules is None
        else [r._asdict() for r in gt.onmatch_rules],
        "metadata": gt.metadata,
        "ignore_errors": gt.ignore_errors,
        "tokenizer_pattern": gt.tokenizer_pattern,
        "lookup": gt.onmatch_rules_lookup,
        "tokens_by_class": {k: sorted(v) for k, v in gt.tokens_by_class.items()},
        "productions": gt.productions,
        "version": gt.graphtransliterator_version,
    }


def graph_of(gt):
    g = gt.graph
    edge = g.edge
    return {
        "node": [dict(n) for n in g.node],
        "edge": {h: {t: dict(d) for t, d in tails.items()} for h, tails in edge.items()},
        "edge_list": [list(_) for _ in g.edge_list],
    }


def outcome(gt, s):
    """Result of transliterating s with everything reported about it."""
    mark = len(RECORDER.records)
    try:
        out = gt.transliterate(s)
    except Exception as e:
        return {"e": type(e).__name__, "log": RECORDER.records[mark:], "msg": str(e)[:300]}
    return {
        "v": out,
        "tokens": gt.last_input_tokens,
        "rules": Repeating(gt.last_matched_rules),
        "rule_tokens": gt.last_matched_rule_tokens,
        "log": RECORDER.records[mark:],
    }


def simple_outcome(gt, s):
    try:
        return ["v", gt.transliterate(s)]
    except Exception as e:
        return ["e", type(e).__name__]


def op_call(op, regs):
    f = target(op["f"], regs)
    args = [dec(_, regs) for _ in op.get("a", [])]
    kwargs = {k: dec(v, regs) for k, v in op.get("k", {}).items()}
    out = f(*args, **kwargs)
    if op.get("then"):
        name, args = op["then"]
        out = getattr(out, name)(*[dec(_, regs) for _ in args])
    return out


def op_timed(op, regs):
    """The CPU time of a call, and what it raised."""
    f = target(op["f"], regs)
    args = [dec(_, regs) for _ in op.get("a", [])]
    kwargs = {k: dec(v, regs) for k, v in op.get("k", {}).items()}
    name = None
    start = time.thread_time()
    try:
        v = f(*args, **kwargs)
    except Exception as e:
        name = type(e).__name__
    cpu = time.thread_time() - start
    if name is None and op.get("reg"):
        regs[op["reg"]] = v
    return {"cpu": cpu, "exc": name}


def op_get(op, regs):
    return target(op["f"], regs)


def op_item(op, regs):
    return target([op["r"]], regs)[op["i"]]


def op_set(op, regs):
    *head, name = op["f"]
    setattr(target(head, regs), name, dec(op["v"], regs))


def op_put(op, regs):
    return dec(op["v"], regs)


def op_state(op, regs):
    return state(target([op["g"]], regs))


def op_graph(op, regs):
    return graph_of(target([op["g"]], regs))


def op_many(op, regs):
    """Transliterate many strings."""
    g = target([op["g"]], regs)
    fn = outcome if op.get("full") else simple_outcome
    return [fn(g, s) for s in dec(op["s"], regs)]


def op_tokenize(op, regs):
    g = target([op["g"]], regs)
    out = []
    for s in dec(op["s"], regs):
        try:
            out.append(["v", list(g.tokenize(s))])
        except Exception as e:
            out.append(["e", type(e).__name__])
    return out


def op_sweep(op, regs):
    """match_at and match_at(match_all) at every position of token lists."""
    g = target([op["g"]], regs)
    out = []
    for toks in dec(op["t"], regs):
        row = []
        for i in range(len(toks)):
            cell = []
            for k in ({}, {"match_all": True}):
                arg = list(toks)
                try:
                    r = g.match_at(i, arg, **k)
                    cell.append(["v", r])
                except Exception as e:
                    cell.append(["e", type(e).__name__, str(e)[:200]])
                if arg != list(toks):
                    cell[-1] = ["e", "ArgumentModified", ""]
            row.append(cell)
        out.append(row)
    return out


def op_hold(op, regs):
    """Remember a deep copy of a register, to see later whether it was modified."""
    regs["\0" + op["r"]] = json.dumps(enc(target([op["r"]], regs)))


def op_same(op, regs):
    return regs["\0" + op["r"]] == json.dumps(enc(target([op["r"]], regs)))


def op_eq(op, regs):
    return target([op["x"]], regs) == target([op["y"]], regs)


def op_is_json(op, regs):
    return json.loads(target([op["r"]], regs))


def op_file(op, regs):
    with open(path_of(op["name"]), "w", encoding="utf-8", newline="") as f:
        f.write(dec(op["text"], regs))


def op_bundle(op, regs):
    """Add a bundled transliterator kept in the scratch directory."""
    base = path_of("bundles/%s" % op["name"])
    mod = "bundle_%s" % op["name"]
    cls = "Bundle%s" % op["name"]
    os.makedirs(os.path.join(base, mod, "tests"), exist_ok=True)

    def put(name, text):
        with open(os.path.join(base, mod, name), "w", encoding="utf-8", newline="") as f:
            f.write(text)

    put(mod + ".yaml", op["yaml"])
    put("tests/%s_tests.yaml" % mod, op["tests"])
    put(
        "__init__.py",
        "from graphtransliterator.transliterators import Bundled\n\n\n"
        "class %s(Bundled):\n    def __init__(self, **kwargs):\n        self.from_%s(**kwargs)\n"
        % (cls, op["init"]),
    )
    tr = root("TR")
    if not hasattr(tr, cls):
        tr.add_transliterators(path=[base])
    return {"cls": cls, "yaml": os.path.join(base, mod, mod + ".yaml"), "json": os.path.join(base, mod, mod + ".json")}


def op_read(op, regs):
    with open(dec(op["f"], regs), encoding="utf-8", newline="") as f:
        return f.read()


def op_write(op, regs):
    """Replace a file kept in the scratch directory."""
    path = dec(op["f"], regs)
    if not os.path.realpath(path).startswith(os.path.realpath(SCRATCH) + os.sep):
        raise ValueError("not a scratch file")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(dec(op["text"], regs))


def op_cli(op, regs):
    """The command line interface, called in this process."""
    from click.testing import CliRunner
    from graphtransliterator import cli

    res = CliRunner().invoke(cli.main, [dec(_, regs) for _ in op["args"]])
    return {
        "code": res.exit_code,
        "out": res.stdout_bytes.decode("utf-8", "replace"),
        "exc": None
        if res.exception is None or isinstance(res.exception, SystemExit)
        else type(res.exception).__name__,
    }


def op_proc(op, regs):
    """The command line interface in a process of its own."""
    import subprocess

    code = "import sys; sys.argv[0] = 'graphtransliterator'; from graphtransliterator.cli import main; sys.exit(main())"
    env = dict(os.environ, PYTHONPATH=REPO)
    res = subprocess.run(
        [sys.executable, "-c", code] + [dec(_, regs) for _ in op["args"]],
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=SCRATCH,
    )
    return {"code": res.returncode, "out": res.stdout.decode("utf-8", "replace"), "exc": None}


def op_visited(op, regs):
    """What a coverage transliterator has logged, through its public check messages."""
    g = target([op["g"]], regs)
    res = {}
    for name in ("check_onmatchrules_coverage",):
        mark = len(RECORDER.records)
        try:
            v = ["v", getattr(g, name)(raise_exception=op.get("raise", False))]
        except Exception as e:
            v = ["e", type(e).__name__, str(e)]
        res["onmatch"] = {"r": v, "log": RECORDER.records[mark:]}
    mark = len(RECORDER.records)
    try:
        v = ["v", g.graph.check_coverage(raise_exception=op.get("raise", False))]
    except Exception as e:
        v = ["e", type(e).__name__, str(e)]
    res["graph"] = {"r": v, "log": RECORDER.records[mark:]}
    mark = len(RECORDER.records)
    try:
        v = ["v", g.check_coverage(raise_exception=op.get("raise", False))]
    except Exception as e:
        v = ["e", type(e).__name__, str(e)]
    res["all"] = {"r": v, "log": RECORDER.records[mark:]}
    return res


def op_iterate(op, regs):
    """Go through everything published without indexing single items."""
    g = target([op["g"]], regs)
    n = sum(1 for _ in g.graph.node) + sum(1 for _ in g.rules) + sum(1 for _ in g.onmatch_rules or [])
    for tails in g.graph.edge.values():
        n += len(list(tails.items())) + len(list(tails.values())) + len(tails)
    return n + len(g.graph.node) + len(str(g.graph.edge_list)) + len(g.productions)


def op_dg(op, regs):
    """Contents of a directed graph."""
    g = target([op["g"]], regs)
    return {
        "node": [dict(n) for n in g.node],
        "edge": {h: {t: dict(d) for t, d in tails.items()} for h, tails in g.edge.items()},
        "edge_list": [list(_) for _ in g.edge_list],
    }


def op_track(op, regs):
    """Reads and other uses of trackers over one graph; what each tracker then reports."""
    g = target([op["g"]], regs)
    who = [_graphs.VisitLoggingDirectedGraph(g) for _ in range(2)] + [g]

    def report(v, hard):
        try:
            return ["v", v.check_coverage(raise_exception=hard)]
        except Exception as e:
            return ["e", type(e).__name__, str(e)]

    def use(v, what, a):
        if what == "node":
            return v.node[a[0]]
        if what == "nodes":
            return list(v.node[slice(*a)])
        if what == "edge":
            return v.edge[a[0]][a[1]]
        if what == "edge of item":
            return dict(v.edge.items())[a[0]][a[1]]
        if what == "anew":  # a tracker of a tracker, in place of the other
            who[1 - who.index(v)] = _graphs.VisitLoggingDirectedGraph(v)
            return None
        if what == "tails":
            return sorted(v.edge[a[0]])
        if what == "len":
            return [len(v.node), len(v.edge), len(v.edge_list)]
        if what == "iterate":
            return [list(v.node), sorted(v.edge), [sorted(x) for x in v.edge.values()], [[h, [[t, d] for t, d in sorted(x.items())]] for h, x in sorted(v.edge.items())]]
        if what == "cost":
            return v.edge_cost(*a)
        if what == "in":
            return [a[0] in v.edge, any(a[1] in x for x in v.edge.values())]
        if what == "list":
            return [list(x) for x in v.edge_list]
        if what == "clear":
            return v.clear_visited()
        if what == "check":
            return report(v, a[0])

    out = []
    for k, what, args in op["steps"]:
        try:
            v = ["v", use(who[k], what, args)]
        except Exception as e:
            v = ["e", type(e).__name__]
        out.append([v, [[report(v, True), report(v, False)] for v in who[:2]]])
    return out


class Turns:
    """Lets one of several threads run at a time, handing over after so many traced lines."""

    def __init__(self, n, quota):
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.quota = list(quota)
        self.switches = 0
        self.left = self.next_quota()

    def next_quota(self):
        return self.quota.pop(0) if self.quota else 1 << 60

    def tracer(self, me):
        base = os.path.join(REPO, "graphtransliterator") + os.sep

        def local(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    self.hand_over(me)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(base) else None

        return glob

    def hand_over(self, me):
        self.left = self.next_quota()
        others = [t for t in self.alive if t != me]
        if not others:
            return
        self.switches += 1
        later = [t for t in others if t > me]
        self.gates[(later or others)[0]].release()
        self.gates[me].acquire()

    def done(self, me):
        self.alive.remove(me)
        self.left = self.next_quota()
        if self.alive:
            later = [t for t in self.alive if t > me]
            self.gates[(later or self.alive)[0]].release()


def op_turns(op, regs):
    """Run jobs (lists of calls) in threads that take turns as told by the quotas."""
    return take_turns(op["jobs"], op["quota"], regs)


def op_preempt(op, regs):
    """Interrupt the first job once after each of the lines it executes, up to so many of them.

    The other jobs then run, half of the time not to their end before the first goes on.
    Returns the different outcomes."""
    import random

    base = os.path.join(REPO, "graphtransliterator") + os.sep
    seen = {}  # where in the run each line is executed
    count = [0]
    rnd = random.Random(op["seed"])

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            seen.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(count[0])
        return local

    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(base) else None)
    try:
        for call in op["jobs"][0]:
            try:
                op_call(call, regs)
            except Exception:
                pass
    finally:
        sys.settrace(None)
    points = [rnd.choice(seen[line]) for line in sorted(seen)]
    rnd.shuffle(points)
    outs, switches = [], 0
    for k in points[: op["max"]]:
        quota = [k + 1] + ([rnd.randint(1, 200)] if rnd.random() < 0.3 else [])
        res = take_turns(op["jobs"], quota, regs)
        switches += res["switches"]
        if res["out"] not in outs:
            outs.append(res["out"])
    return {"outs": outs, "switches": switches, "points": len(points[: op["max"]])}


def take_turns(jobs, quota, regs):
    turns = Turns(len(jobs), quota)
    out = [[] for _ in jobs]

    def body(me):
        turns.gates[me].acquire()
        sys.settrace(turns.tracer(me))
        try:
            for call in jobs[me]:
                try:
                    out[me].append(["v", enc(op_call(call, regs))])
                except Exception as e:
                    out[me].append(["e", type(e).__name__])
        finally:
            sys.settrace(None)
            turns.done(me)

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    turns.gates[0].release()
    for t in threads:
        t.join(60)
        if t.is_alive():
            raise SystemExit("threads taking turns are stuck")
    return {"out": out, "switches": turns.switches}


def op_effects(op, regs):
    """Run operations with logging as it is in a process that does not set it up, and tell
    what they changed outside the library."""
    import world

    root("TR")
    from graphtransliterator import cli  # noqa: F401
    import click.testing  # noqa: F401

    lroot = logging.getLogger()
    lroot.removeHandler(RECORDER)
    level = lroot.level
    lroot.setLevel(logging.WARNING)
    own = logging.getLogger("graphtransliterator")
    own.addHandler(RECORDER)
    real = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err = io.StringIO(), io.StringIO()
    results = []
    undo = world.unusual(path_of("unusual"))
    try:
        before = world.snapshot([SCRATCH])
        for sub in op["ops"]:
            try:
                v = OPS[sub["do"]](sub, regs)
                if sub.get("to"):
                    regs[sub["to"]] = v
                results.append(["v", enc(v)] if sub.get("ret") else ["v"])
            except Missing:
                results.append(["skip"])
            except Exception as e:
                results.append(["e", type(e).__name__])
        after = world.snapshot([SCRATCH])
    finally:
        undo()
        sys.stdout, sys.stderr = real
        for h in list(lroot.handlers):
            lroot.removeHandler(h)
        own.removeHandler(RECORDER)
        lroot.addHandler(RECORDER)
        lroot.setLevel(level)
    return {
        "changes": world.changes(before, after), "out": out.getvalue(), "err": err.getvalue(),
        "results": results, "warned": len(RECORDER.records),
    }


def op_import(op, regs):
    """What importing the modules of the library changes in a process of its own."""
    import subprocess

    code = os.path.join(os.path.dirname(os.path.abspath(__file__)), "world.py")
    res = subprocess.run(
        [sys.executable, code, REPO] + op["modules"],
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=SCRATCH,
    )
    if res.returncode:
        raise ValueError(res.stderr.decode("utf-8", "replace")[-1500:])
    return json.loads(res.stdout)


def op_packages(op, regs):
    """Write packages to the scratch directory, to be added as bundled transliterators."""
    base = path_of("packages/%s" % op["name"])
    for rel, text in op["files"]:
        path = os.path.join(base, rel)
        if not os.path.realpath(path).startswith(os.path.realpath(base) + os.sep):
            raise ValueError("not below the scratch directory")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
    return base


def op_published(op, regs):
    """Names of bundled transliterators, and what they stand for."""
    tr = root("TR")
    names = list(tr.iter_names())
    return {
        "names": names,
        "all": list(tr.__all__),
        "bundled": [isinstance(getattr(tr, n, None), type) and issubclass(getattr(tr, n), tr.Bundled) for n in names],
        "named": [getattr(getattr(tr, n, None), "__name__", None) for n in names],
        "module": [getattr(getattr(tr, n, None), "__module__", None) for n in names],
        "ids": [id(getattr(tr, n, None)) for n in names],
    }


def op_tree(op, regs):
    """The files below the scratch directory and the package, with digests of their contents."""
    import hashlib

    out = {}
    for base in (SCRATCH, REPO) if not REPO.startswith(SCRATCH) else (SCRATCH,):
        for at, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in (".git", "__pycache__", "pyc", "trap")]
            for name in files:
                path = os.path.join(at, name)
                if at == SCRATCH and name == "stderr":
                    continue
                with open(path, "rb") as f:
                    out[path] = hashlib.md5(f.read()).hexdigest()
    return out


def op_probe(op, regs):
    """Whether anything a text named was run, built or imported since the last look."""
    mod = sys.modules.get("vt_probe")
    if mod is None:
        import types

        mod = sys.modules["vt_probe"] = types.ModuleType("vt_probe")
        mod.fired = []

        def fire(*a, **k):
            mod.fired.append("fire")
            return "fired"

        class Thing:
            def __new__(cls, *a, **k):
                mod.fired.append("Thing")
                return super().__new__(cls)

            def __setstate__(self, state):
                mod.fired.append("state")

        mod.fire, mod.Thing = fire, Thing
        base = path_of("trap/vt_trap.py")
        with open(base, "w") as f:
            f.write("x = 1\n")
        sys.path.append(os.path.dirname(base))
    out = mod.fired + (["imported"] if sys.modules.pop("vt_trap", None) else [])
    mod.fired = []
    return out


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def run(req):
    regs = {}
    out = []
    for op in req["ops"]:
        RECORDER.records.clear()
        try:
            v = OPS[op["do"]](op, regs)
            if op.get("to"):
                regs[op["to"]] = v
            r = {"v": enc(v)} if op.get("ret", not op.get("to")) else {"n": 1}
        except Missing:
            regs.pop(op.get("to"), None)  # nothing stale
            r = {"skip": 1}
        except Exception as e:
            regs.pop(op.get("to"), None)
            r = enc_exc(e)
        if op.get("log"):
            r["log"] = list(RECORDER.records)
        out.append(r)
    return out


def main():
    for line in sys.stdin:
        req = json.loads(line)
        res = run(req)
        _out.write(json.dumps(res))
        _out.write("\n")
        _out.flush()


main()
