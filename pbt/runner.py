"""Runs one property: regression corpus, known findings, then sharded generation."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import client, gen

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_CALLS = 1500
SHRINK_SECONDS = 60


class Fail(AssertionError):
    """The property does not hold on this case."""


class HardStop(BaseException):
    """Leave Hypothesis at once."""


class Ctx:
    """What a check may use: workers to run scripts on, labels to count."""

    def __init__(self):
        self.workers = {}
        self.labels = collections.Counter()
        self.nontrivial = False

    def worker(self, kind="pypy", hashseed="0"):
        key = (kind, hashseed)
        if key not in self.workers:
            if kind == "copy":
                self.workers[key] = client.Worker("pypy", hashseed, copy=True)
            else:
                self.workers[key] = client.Worker(kind, hashseed)
        return self.workers[key]

    def run(self, script, kind="pypy", hashseed="0", limit=None):
        """Results as Result objects."""
        ops = script.ops if isinstance(script, client.Script) else script
        raw = self.worker(kind, hashseed).run(ops, limit)
        return [Result(op, x) for op, x in zip(ops, raw)]

    def label(self, *names):
        self.labels.update(names)

    def close(self):
        for w in self.workers.values():
            w.close()


class Result:
    def __init__(self, op, raw):
        self.op, self.raw = op, raw

    @property
    def ok(self):
        return "v" in self.raw or "n" in self.raw

    @property
    def exc(self):
        return self.raw.get("e")

    @property
    def mro(self):
        return self.raw.get("mro", [])

    @property
    def msg(self):
        return self.raw.get("msg")

    @property
    def log(self):
        return self.raw.get("log", [])

    @property
    def v(self):
        if "v" not in self.raw:
            if "n" in self.raw:
                return None
            raise Fail(
                "%s raised %s: %s"
                % (client.brief(self.op), self.exc or "(skipped)", self.msg)
            )
        return client.plain(self.raw["v"])

    def need(self):
        if not self.ok:
            self.v
        return self


def ensure(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def load_prop(pid):
    return importlib.import_module("pbt.props." + pid.lower())


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()


def run_case(prop, ctx, case):
    """None if the property holds on the case, else what failed."""
    ctx.nontrivial = False
    try:
        prop.check(ctx, case)
    except Fail as e:
        return str(e)[:4000]
    except client.Hang as e:
        return "HANG: %s" % e
    except client.Crash as e:
        return "CRASH: %s" % e
    except (KeyError, TypeError, IndexError, ValueError, AttributeError):
        # Results of a shape the oracle cannot read are wrong results.
        return "unreadable result: " + traceback.format_exc()[-2500:]
    setts = case.get("settings") if isinstance(case, dict) else None
    if isinstance(setts, dict) and "tokens" in setts and gen.is_huge(setts):
        ctx.label("large configuration")
    return None


# ---------------------------------------------------------------- shard


def shard(pid, tier, seed, index, count, examples, outfile):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies as st

    prop = load_prop(pid)
    ctx = Ctx()
    stat = {
        "evaluations": 0,
        "nontrivial": 0,
        "hashes": [],
        "labels": {},
        "samples": [],
        "failure": None,
        "error": None,
    }
    seen = set()
    fail = {"case": None, "msg": None, "since": None, "calls": 0}
    history = []

    def one(case):
        if fail["since"] is not None:
            fail["calls"] += 1
            if (
                fail["calls"] > SHRINK_CALLS
                or time.monotonic() - fail["since"] > SHRINK_SECONDS
            ):
                raise HardStop()
        else:
            stat["evaluations"] += 1
            history.append(canon(case))
        msg = run_case(prop, ctx, case)
        if msg is not None:
            if fail["since"] is None:
                fail["since"] = time.monotonic()
            if fail["case"] is None or len(canon(case)) <= len(canon(fail["case"])):
                fail["case"], fail["msg"] = case, msg
            if msg.startswith(("HANG", "CRASH")):
                raise HardStop()
            raise Fail(msg)
        if fail["since"] is None and ctx.nontrivial:
            h = digest(case)
            if h not in seen:
                seen.add(h)
                if len(stat["samples"]) < 2 and len(canon(case)) < 3000:
                    stat["samples"].append(case)

    try:
        for case in prop.fixed_cases(tier, index, count) if hasattr(prop, "fixed_cases") else []:
            one(case)

        @hypothesis.seed(seed * 1000 + index)
        @settings(
            max_examples=examples,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(st.data())
        def test(data):
            one(prop.case(data.draw, tier))

        test()
    except (Fail, HardStop):
        pass
    except Exception:
        if fail["case"] is None:
            stat["error"] = traceback.format_exc()[-6000:]
    finally:
        ctx.close()
    if fail["case"] is not None:
        stat["failure"] = {
            "case": fail["case"],
            "msg": fail["msg"],
            "history": history,  # every case up to the first that failed
        }
    stat["hashes"] = sorted(seen)
    stat["labels"] = dict(ctx.labels)
    with open(outfile, "w") as fh:
        json.dump(stat, fh)


# ---------------------------------------------------------------- parent


def known_findings():
    with open(os.path.join(ROOT, "known_findings.json")) as fh:
        return json.load(fh)


def corpus(pid):
    d = os.path.join(ROOT, "corpus", pid)
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            if name.endswith(".json"):
                with open(os.path.join(d, name)) as fh:
                    yield name, json.load(fh)


def write_replay(pid, case, msg, before=()):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, digest(case)))
    with open(path, "w") as fh:
        entry = {"property": pid, "case": case, "message": msg}
        if before:
            entry["before"] = list(before)
        json.dump(entry, fh, indent=1)
    return path


def confirm(prop, case, before=()):
    """Re-run a failing case in fresh processes, possibly after other cases."""
    ctx = Ctx()
    try:
        for c in before:
            run_case(prop, ctx, c)
        return run_case(prop, ctx, case)
    finally:
        ctx.close()


def confirm_history(prop, history, seconds=150):
    """A failure that needs cases run before it in the same process.

    Returns (cases before, case, message), with few cases before, or None.
    """
    deadline = time.monotonic() + seconds
    *before, case = [json.loads(c) for c in history]
    msg = confirm(prop, case, before)
    if msg is None:
        return None
    n = 2
    while before and time.monotonic() < deadline:  # ddmin
        size = max(1, len(before) // n)
        for i in range(0, len(before), size):
            rest = before[:i] + before[i + size :]
            m = confirm(prop, case, rest)
            if m is not None:
                before, msg, n = rest, m, max(n - 1, 2)
                break
            if time.monotonic() > deadline:
                break
        else:
            if size == 1:
                break
            n = min(len(before), n * 2)
    return before, case, msg


def check(pid, tier, seed, shards=None, examples=None):
    t0 = time.monotonic()
    prop = load_prop(pid)
    shards = shards or 8
    examples = examples or prop.EXAMPLES[tier]
    labels = collections.Counter()
    violations = []
    evaluations = 0
    hashes = set()
    samples = []

    # regression corpus and known findings
    ctx = Ctx()
    finding_digests = set()
    try:
        for entry in known_findings():
            if entry["property"] == pid and entry["status"] == "known":
                finding_digests.add(digest(entry["case"]))
                msg = run_case(prop, ctx, entry["case"])
                if msg is not None:
                    print("KNOWN-FINDING: property=%s %s" % (pid, entry["what"]))
                    labels["known finding still present"] += 1
        for name, entry in corpus(pid):
            evaluations += 1
            labels["regression corpus"] += 1
            msg = run_case(prop, ctx, entry["case"])
            if ctx.nontrivial:
                hashes.add(digest(entry["case"]))
            if msg is not None:
                msg = confirm(prop, entry["case"])
            if msg is not None:
                violations.append((entry["case"], msg, ()))
    finally:
        ctx.close()

    errors = []
    if not violations:
        tmp = tempfile.mkdtemp(prefix="shards-", dir=os.environ["VERIF_TMP"])
        procs = []
        for i in range(shards):
            out = os.path.join(tmp, "%d.json" % i)
            cmd = [
                sys.executable,
                os.path.join(ROOT, "run.py"),
                "--shard",
                json.dumps([pid, tier, seed, i, shards, examples, out]),
            ]
            procs.append((subprocess.Popen(cmd), out))
        failed = None
        pending = list(procs)
        first_fail = None
        while pending:
            for item in list(pending):
                p, out = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if not os.path.exists(out):
                    errors.append("shard ended with %s and no result" % p.returncode)
                    continue
                with open(out) as fh:
                    stat = json.load(fh)
                evaluations += stat["evaluations"]
                hashes.update(stat["hashes"])
                labels.update(stat["labels"])
                samples += stat["samples"]
                if stat["error"]:
                    errors.append(stat["error"])
                fl = stat["failure"]
                if fl is not None and (
                    failed is None or len(canon(fl["case"])) < len(canon(failed["case"]))
                ):
                    failed = fl
                    first_fail = first_fail or time.monotonic()
            if pending:
                time.sleep(0.05)
                # shards that are still generating long after a failure was found
                if first_fail and time.monotonic() - first_fail > 20:
                    for p, out in pending:
                        p.terminate()
                        p.wait()
                    pending = []
        if failed is not None:
            msg = confirm(prop, failed["case"])
            if msg is not None:
                if digest(failed["case"]) not in finding_digests:
                    violations.append((failed["case"], msg, ()))
            else:
                found = confirm_history(prop, failed["history"])
                if found is not None:
                    before, case, msg = found
                    violations.append((case, msg, before))
                else:
                    errors.append(
                        "not reproducible in a fresh process: %s\n%s"
                        % (failed["msg"], canon(failed["case"]))
                    )

    replay_paths = []
    for case, msg, before in violations:
        path = write_replay(pid, case, msg, before)
        replay_paths.append(path)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": prop.RULE,
            "samples": samples[:5],
            "classes": dict(sorted(labels.items())),
            "shards": shards,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=True)
    print(
        "%s %s seed=%s: %d cases, %d distinct non-trivial, %.1f s"
        % (pid, tier, seed, evaluations, len(hashes), evidence["wall_s"])
    )
    if violations:
        for (case, msg, _), path in zip(violations, replay_paths):
            print("  " + msg.replace("\n", "\n  ")[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors)[-8000:], file=sys.stderr)
        return 3
    return 0


def replay(path):
    with open(path) as fh:
        entry = json.load(fh)
    prop = load_prop(entry["property"])
    msg = confirm(prop, entry["case"], entry.get("before", ()))
    if msg is None:
        print("property %s holds on %s" % (entry["property"], path))
        return 0
    print("  " + msg)
    print("VIOLATION property=%s replay=%s" % (entry["property"], path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shards", type=int)
    ap.add_argument("--examples", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ns = ap.parse_args()
    if ns.shard:
        pid, tier, seed, i, n, examples, out = json.loads(ns.shard)
        shard(pid, tier, seed, i, n, examples, out)
        return 0
    client.check_environment()
    os.environ["VERIF_TMP"] = tempfile.mkdtemp(prefix="verif-gt-")
    try:
        if ns.replay:
            return replay(ns.replay)
        return check(ns.property.upper(), ns.tier, ns.seed, ns.shards, ns.examples)
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        shutil.rmtree(os.environ["VERIF_TMP"], ignore_errors=True)
