"""What a process holds besides its own data, to see whether a library call changed it.

Also run as a program: python world.py REPO MODULE... prints what importing them changed.
"""
import gc
import hashlib
import json
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings


def snapshot(watch=()):
    """Names to values; equal before and after unless something was changed."""
    root, own = logging.getLogger(), logging.getLogger("graphtransliterator")
    out = {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "import path": list(sys.path),
        "import hooks": [id(x) for x in sys.meta_path + sys.path_hooks],
        "root logger": [[id(x) for x in root.handlers], root.level, root.disabled, [id(x) for x in root.filters]],
        "own logger": [[id(x) for x in own.handlers], own.level, own.propagate, own.disabled, [id(x) for x in own.filters]],
        "logging": [logging.root.manager.disable, id(logging.lastResort), logging.raiseExceptions, id(logging.getLoggerClass()), logging.getLevelName(30)],
        "warning filters": [repr(x) for x in warnings.filters],
        "random numbers": hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()), id(warnings.showwarning)],
        "signal handlers": [id(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGPIPE)],
        "timers": list(signal.getitimer(signal.ITIMER_REAL)),
        "threads": threading.active_count(),
        "garbage collection": gc.isenabled(),
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "builtins": sorted(vars(__import__("builtins"))),
        "thread switching": sys.getswitchinterval(),
    }
    mask = os.umask(0o77)
    os.umask(mask)
    out["file mode mask"] = mask
    yaml = sys.modules.get("yaml")
    if yaml:
        for name in ("SafeLoader", "Loader", "FullLoader", "SafeDumper", "Dumper"):
            cls = getattr(yaml, name)
            for attr in ("yaml_constructors", "yaml_multi_constructors", "yaml_implicit_resolvers", "yaml_representers", "yaml_multi_representers"):
                if hasattr(cls, attr):
                    v = getattr(cls, attr)
                    out["yaml %s %s" % (name, attr)] = sorted((str(k), len(x) if isinstance(x, list) else id(x)) for k, x in v.items())
            out["yaml %s methods" % name] = sorted((k, id(v)) for k, v in vars(cls).items() if callable(v))
    out["json"] = [id(json._default_encoder), id(json._default_decoder), id(json.JSONEncoder.default), id(json.dumps), id(json.loads)]
    if sys.modules.get("marshmallow"):
        from marshmallow import Schema

        out["marshmallow types"] = sorted((str(k), str(v)) for k, v in Schema.TYPE_MAPPING.items())
    for base in watch:
        out["files in " + base] = {
            os.path.join(at, name): os.path.getsize(os.path.join(at, name))
            for at, dirs, files in os.walk(base)
            for name in files
            if "/pyc/" not in at and name != "stderr"
        }
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds.append([int(fd), os.readlink("/proc/self/fd/" + fd)])
        except OSError:
            pass  # the one of the listing itself
    out["open files"] = sorted(x for x in fds if not x[1].endswith("/fd"))
    return out


def unusual(folder):
    """Settings of the process that no default is equal to; gives a function that undoes them."""
    os.makedirs(folder, exist_ok=True)
    own = logging.getLogger("graphtransliterator")
    old = os.getcwd(), list(sys.path), sys.getrecursionlimit(), list(warnings.filters), own.level
    handler = signal.signal(signal.SIGALRM, lambda *_: None)
    mask = os.umask(0o27)
    os.chdir(folder)
    sys.path.insert(0, folder)
    sys.setrecursionlimit(old[2] + 234)
    warnings.simplefilter("ignore", BytesWarning)
    random.seed(77)
    own.setLevel(25)
    os.environ["VERIF_UNUSUAL"] = "1"

    def undo():
        os.chdir(old[0])
        sys.path[:] = old[1]
        sys.setrecursionlimit(old[2])
        warnings.filters[:] = old[3]
        own.setLevel(old[4])
        signal.signal(signal.SIGALRM, handler)
        os.umask(mask)
        os.environ.pop("VERIF_UNUSUAL", None)

    return undo


def changes(before, after):
    out = {}
    for k in sorted(set(before) | set(after)):
        if before.get(k) != after.get(k):
            out[k] = [short(before.get(k)), short(after.get(k))]
    return out


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:200] + " ... " + s[-200:]


def main():
    import io

    repo, modules = sys.argv[1], sys.argv[2:]
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import click.testing  # noqa: F401  the libraries used are not under test
    import marshmallow  # noqa: F401
    import yaml  # noqa: F401

    import inspect, pkgutil, unicodedata  # noqa: F401, E401

    out, err = io.StringIO(), io.StringIO()
    real = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    before = snapshot()
    for name in modules:
        __import__(name)
    after = snapshot()
    sys.stdout, sys.stderr = real
    print(json.dumps({"changes": changes(before, after), "out": out.getvalue(), "err": err.getvalue()}))


if __name__ == "__main__":
    main()
