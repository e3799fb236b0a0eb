"""Talks to worker processes that execute the code under test."""
import ctypes
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv-pypy/bin/python"
PYPY_SITE = "/opt/venv-pypy/lib/pypy3.9/site-packages"
CPYTHON = "/opt/veriftools/pyvenv/bin/python"
CPU_LIMIT = 60.0  # CPU seconds of the worker for one request (normal: milliseconds)
MEM_LIMIT = 3 << 30
try:
    PRCTL = ctypes.CDLL(None).prctl
except (OSError, AttributeError):
    PRCTL = None
TICK = os.sysconf("SC_CLK_TCK")


class Hang(Exception):
    """The code under test used an absurd amount of CPU time on one case."""


class Crash(Exception):
    """The code under test ended the worker process."""


class Raised(Exception):
    """An operation that had to succeed raised."""

    def __init__(self, op, res):
        self.op, self.res = op, res
        super().__init__("%s raised %s: %s" % (brief(op), res.get("e"), res.get("msg")))


def brief(op):
    s = json.dumps(op, ensure_ascii=False)
    return s if len(s) < 300 else s[:300] + "..."


def plain(x):
    """Undo the worker's tagging (sets become frozensets, tuples tuples)."""
    if isinstance(x, list):
        return [plain(_) for _ in x]
    if isinstance(x, dict):
        if "D" in x:
            return {hashable(plain(k)): plain(v) for k, v in x["D"]}
        if "T" in x:
            return tuple(plain(_) for _ in x["T"])
        if "S" in x:
            return frozenset(hashable(plain(_)) for _ in x["S"])
        if "R" in x:
            table = [plain(_) for _ in x["R"]]
            return [table[i] for i in x["i"]]
        if "N" in x:
            return {k: plain(v) for k, v in x["f"]}
        if "F" in x:
            return float(x["F"])
        if "O" in x:
            return "<object %s>" % x["O"]
    return x


def hashable(x):
    return tuple(hashable(_) for _ in x) if isinstance(x, list) else x


class Worker:
    def __init__(self, kind="pypy", hashseed="0", copy=False):  # kind: pypy, ascii, cpython
        self.kind, self.hashseed, self.repo = kind, hashseed, REPO
        self.proc = None
        self.scratch = tempfile.mkdtemp(prefix="w-", dir=os.environ.get("VERIF_TMP"))
        if copy:  # for operations that write into the package
            self.repo = os.path.join(self.scratch, "repo")
            shutil.copytree(
                os.path.join(REPO, "graphtransliterator"),
                os.path.join(self.repo, "graphtransliterator"),
                ignore=shutil.ignore_patterns("__pycache__"),
            )
        self.requests = 0

    def start(self):
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": self.scratch,
            "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8",
            "PYTHONHASHSEED": self.hashseed,
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": os.path.join(self.scratch, "pyc"),
            "VERIF_REPO": self.repo,
            "VERIF_SCRATCH": self.scratch,
        }
        if self.kind == "ascii":  # a locale whose encoding is not UTF-8
            env.update(LANG="POSIX", LC_ALL="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        exe = PYPY
        if self.kind == "cpython":
            exe = CPYTHON
            env["VERIF_SITE"] = PYPY_SITE
        import resource

        def limits():
            if PRCTL is not None:  # a worker dies with the process that started it
                PRCTL(1, 9, 0, 0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (3000, 3000))

        self.errlog = open(os.path.join(self.scratch, "stderr"), "ab")
        self.proc = subprocess.Popen(
            [exe, os.path.join(HERE, "worker.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.errlog,
            env=env,
            cwd=self.scratch,
            preexec_fn=limits,
        )

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as f:
                parts = f.read().rsplit(")", 1)[1].split()
            return (int(parts[11]) + int(parts[12])) / TICK
        except (OSError, IndexError):
            return 0.0

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.errlog.close()
            self.proc = None

    def close(self):
        self.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def stderr_tail(self):
        try:
            with open(os.path.join(self.scratch, "stderr"), "rb") as f:
                return f.read()[-3000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def request(self, req, limit=CPU_LIMIT):
        if self.proc is None:
            self.start()
        self.requests += 1
        start_cpu = self.cpu()
        start = time.monotonic()
        try:
            self.proc.stdin.write(json.dumps(req).encode() + b"\n")
            self.proc.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise Crash("worker ended: " + self.stderr_tail())
        fd = self.proc.stdout.fileno()
        chunks = []
        while True:
            ready, _, _ = select.select([fd], [], [], 2.0)
            if ready:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    self.stop()
                    raise Crash("worker ended: " + self.stderr_tail())
                chunks.append(chunk)
                if chunk.endswith(b"\n"):
                    break
            elif self.cpu() - start_cpu > limit or time.monotonic() - start > 400:
                used = self.cpu() - start_cpu
                self.stop()
                if used > limit:
                    raise Hang("no answer after %.0f s of CPU time" % used)
                raise RuntimeError("worker got no CPU time")
        line = b"".join(chunks)
        if os.environ.get("VERIF_BIG") and len(line) > int(os.environ["VERIF_BIG"]):
            for op, x in zip(req["ops"], json.loads(line)):
                print(brief(op)[:100], len(json.dumps(x)), file=sys.stderr)
        return json.loads(line)

    def run(self, ops, limit=None):
        """Raw results of a script, which may take `limit` seconds of CPU time."""
        return self.request({"ops": ops}, limit or CPU_LIMIT)


class Script:
    """Builds a list of operations and gives names to their results."""

    def __init__(self):
        self.ops = []

    def add(self, do, **kw):
        self.ops.append(dict(do=do, **kw))
        return len(self.ops) - 1

    def call(self, f, *a, to=None, k=None, ret=None, log=False):
        op = dict(do="call", f=f, a=list(a))
        if k:
            op["k"] = k
        if to:
            op["to"] = to
        if ret is not None:
            op["ret"] = ret
        if log:
            op["log"] = True
        self.ops.append(op)
        return len(self.ops) - 1


def r(name):
    return {"\x01r": name}


def f(name):
    return {"\x01f": name}


def t(*items):
    return {"\x01t": list(items)}


def d(mapping):
    """A mapping whose keys could be mistaken for tags or are not strings."""
    return {"\x01d": [[k, v] for k, v in mapping.items()]}


def check_environment():
    for p in (PYPY, REPO):
        if not os.path.exists(p):
            sys.exit("missing " + p)
