"""Histories of operations over several live transliterators against fresh ones."""
import random

from .. import gen, model
from ..client import Script, d, r
from ..runner import ensure
from .common import norm_dump, strip_empty_contexts

EXAMPLES = {"quick": 700, "thorough": 4000}
RULE = (
    "A case is one or two configurations and a history of up to 16 operations over up to 6 "
    "live transliterators (built from shared settings objects, loaded from shared dumps, "
    "constructed from another one's parts, coverage-tracking, pruned): transliterate "
    "(succeeding or failing, single or in their hundreds), tokenize, match, dump, prune, load, toggle error-ignoring, read "
    "last results. Every result is compared with that of a transliterator freshly built in "
    "another process. Non-trivial: at least two instances, a failing and a later succeeding "
    "transliteration on one instance or a derived instance used before its origin."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    confs = []
    for _ in range(1 + g.chance(1, 3)):
        s = gen.settings(
            g, profile=g.pick(["plain", "munch", "uni"]), max_rules=6, complete=g.chance(1, 2), odd_classes=False
        )
        confs.append(strip_empty_contexts(s))
    used = []  # texts of the history, to be used again

    def text(s):
        if used and g.chance(2, 5):
            return g.pick(used)
        used.append(gen.text_input(g, s, unknown=g.chance(1, 4), long=60))
        return used[-1]

    hist = [{"op": "new", "conf": 0, "via": g.pick(["dict", "load0", "load2"]), "ie": g.chance(1, 4)}]
    conf_of = [0]
    for _ in range(g.int(2, 15)):
        n = len(conf_of)
        k = g.int(0, n - 1)
        s = confs[conf_of[k]]
        what = g.int(0, 13) if not g.chance(1, 40) else 14
        if what <= 4:
            hist.append({"op": "trans", "i": k, "s": text(s)})
        elif what == 5:
            hist.append({"op": "last", "i": k})
        elif what == 6:
            hist.append({"op": "ie", "i": k, "v": g.chance(1, 2)})
            if used and g.chance(1, 2):
                hist.append({"op": g.pick(["trans", "trans", "tokenize"]), "i": k, "s": text(s)})
        elif what == 7:
            hist.append({"op": "match", "i": k, "t": gen.framed(g, s, 2)})
        elif what == 8:
            hist.append({"op": "dump", "i": k, "level": g.int(0, 2), "text": g.chance(1, 2)})
        elif what == 9:
            hist.append({"op": "tokenize", "i": k, "s": text(s)})
        elif n < 6 and what == 10:
            prods = [x["production"] for x in s["rules"]]
            p = g.pick(prods) if g.chance(1, 2) else g.some(prods, 0, 2)
            hist.append({"op": "prune", "i": k, "p": p})
            conf_of.append(conf_of[k])
        elif n < 6 and what == 11:
            hist.append({"op": "parts", "i": k, "cov": g.chance(1, 2), "graph": g.chance(1, 2)})
            conf_of.append(conf_of[k])
        elif n < 6 and what == 12:
            hist.append({"op": "reload", "i": k, "level": g.int(0, 2)})
            conf_of.append(conf_of[k])
        elif n < 6 and what == 13:
            c = g.int(0, len(confs) - 1)
            hist.append({"op": "new", "conf": c, "via": g.pick(["dict", "dict", "load0", "load1", "load2"]), "ie": g.chance(1, 4)})
            conf_of.append(c)
        elif what == 14:  # very many texts, too many to be spelled out
            hist.append({"op": "bulk", "i": k, "seed": g.int(0, 9999), "n": g.pick([60, 150, 300, 1100, 2200])})
            hist.append({"op": g.pick(["trans", "last", "dump"]), "i": k, "s": text(s), "level": 0, "text": False})
    return {"confs": confs, "hist": hist}


def bulk(s, seed, n):
    """Texts over the tokens of a configuration, some of which come back later."""
    rnd = random.Random(seed)
    toks = sorted(s["tokens"])
    out = []
    for _ in range(n):
        if out and rnd.random() < 0.15:
            out.append(out[rnd.randrange(min(len(out), 40))])
        else:
            out.append("".join(rnd.choice(toks) for _ in range(rnd.randint(1, 6))))
    return out


def check(ctx, case):
    confs, hist = case["confs"], case["hist"]
    live, ref = Script(), Script()
    for n, s in enumerate(confs):
        live.add("put", v=gen.scripted_settings(s), to="S%d" % n)
        live.call("GT.from_dict", r("S%d" % n), to="base%d" % n, k={"check_ambiguity": False})
        for level in (0, 1, 2):
            live.call(["base%d" % n, "dump"], level, to="D%d_%d" % (n, level))
            live.add("hold", r="D%d_%d" % (n, level))
        live.add("hold", r="S%d" % n)
    insts = []  # what a fresh equivalent is made of
    pairs = []  # (live index, ref index, what)
    bulks = []
    fresh = [0]

    def fresh_of(i):
        """Register, in the other process, of a new transliterator equal to instance i."""
        fresh[0] += 1
        name = "f%d" % fresh[0]
        inst = insts[i]
        ref.call(
            "GT.from_dict", gen.scripted_settings(confs[inst["conf"]]), to=name,
            k={"check_ambiguity": False, "ignore_errors": inst["ie"]},
        )
        for p in inst["pruned"]:
            ref.call([name, "pruned_of"], p, to=name)
        ref.add("set", f=[name, "ignore_errors"], v=inst["ie"])
        return name

    toks = 0
    for h in hist:
        op = h["op"]
        if op == "new":
            name = "i%d" % len(insts)
            if h["via"] == "dict":
                live.call("GT.from_dict", r("S%d" % h["conf"]), to=name, k={"check_ambiguity": False, "ignore_errors": h["ie"]})
            else:
                live.call("GT.load", r("D%d_%s" % (h["conf"], h["via"][-1])), to=name, k={"ignore_errors": h["ie"]})
            insts.append({"conf": h["conf"], "ie": h["ie"], "pruned": [], "last": None, "cov": False, "bad": False})
            continue
        i = h["i"]
        name, inst = "i%d" % i, insts[i]
        if op == "trans":
            a = live.add("many", g=name, s=[h["s"]], full=True)
            b = ref.add("many", g=fresh_of(i), s=[h["s"]], full=True)
            pairs.append((a, b, h))
            inst["last"] = b
        elif op == "last":
            if inst["last"] is not None:
                for attr, key in (
                    ("last_input_tokens", "tokens"), ("last_matched_rules", "rules"),
                    ("last_matched_rule_tokens", "rule_tokens"),
                ):
                    a = live.add("get", f=[name, attr])
                    pairs.append((a, (inst["last"], key), h))
        elif op == "ie":
            live.add("set", f=[name, "ignore_errors"], v=h["v"])
            inst["ie"] = h["v"]
        elif op == "match":
            toks += 1
            live.add("put", v=h["t"], to="t%d" % toks)
            live.add("hold", r="t%d" % toks)
            a = live.add("sweep", g=name, t=[h["t"]])
            b = ref.add("sweep", g=fresh_of(i), t=[h["t"]])
            pairs.append((a, b, h))
            if len(h["t"]) > 1:
                a = live.call([name, "match_at"], 1, r("t%d" % toks), ret=True)
                b = ref.call([fresh_of(i), "match_at"], 1, h["t"], ret=True)
                pairs.append((a, b, h))
        elif op == "dump":
            a = live.call([name, "dumps" if h["text"] else "dump"], h["level"], ret=True)
            if not inst["cov"]:
                b = ref.call([fresh_of(i), "dumps" if h["text"] else "dump"], h["level"], ret=True)
                pairs.append((a, b, h))
        elif op == "bulk":
            # the same texts in another order on the fresh one
            texts = bulk(confs[inst["conf"]], h["seed"], h["n"])
            a = live.add("many", g=name, s=texts)
            b = ref.add("many", g=fresh_of(i), s=texts[::-1])
            bulks.append((a, b, h, texts))
            inst["last"] = None
        elif op == "tokenize":
            a = live.add("tokenize", g=name, s=[h["s"]])
            b = ref.add("tokenize", g=fresh_of(i), s=[h["s"]])
            pairs.append((a, b, h))
        elif op == "prune":
            live.call([name, "pruned_of"], h["p"], to="i%d" % len(insts))
            insts.append(dict(inst, pruned=inst["pruned"] + [h["p"]], last=None, cov=False))
        elif op == "reload":
            live.call([name, "dump"], h["level"], to="tmp")
            live.call("GT.load", r("tmp"), to="i%d" % len(insts), k={"ignore_errors": inst["ie"]})
            insts.append(dict(inst, last=None, cov=False))
        elif op == "parts":
            for attr in ("tokens", "rules", "whitespace", "onmatch_rules", "graph", "metadata"):
                live.add("get", f=[name, attr], to="p_" + attr)
            k = {"check_ambiguity": False, "ignore_errors": inst["ie"], "metadata": r("p_metadata"), "onmatch_rules": r("p_onmatch_rules")}
            if h["graph"]:
                k["graph"] = r("p_graph")
            live.call(
                "CT" if h["cov"] else "GT", r("p_tokens"), r("p_rules"), r("p_whitespace"), to="i%d" % len(insts), k=k
            )
            insts.append(dict(inst, last=None, cov=h["cov"] or inst["cov"]))
    finals = []
    for n in range(len(confs)):
        finals.append(live.add("same", r="S%d" % n))
        finals += [live.add("same", r="D%d_%d" % (n, level)) for level in (0, 1, 2)]
    finals += [live.add("same", r="t%d" % k) for k in range(1, toks + 1)]
    got = ctx.run(live)
    want = ctx.run(ref, hashseed="1") if ref.ops else []
    for res in got:
        if res.op["do"] in ("put", "hold", "set"):
            ensure(res.ok, "%r failed: %s %s", res.op, res.exc, res.msg)
        if res.op.get("to"):
            ensure(res.ok, "making %r failed: %s %s", res.op, res.exc, res.msg)
    for a, b, h in pairs:
        if isinstance(b, tuple):
            ref_out = want[b[0]].v[0]
            if "v" in ref_out:
                ensure(
                    got[a].v == ref_out[b[1]],
                    "last results of instance %r: %r, but its last transliteration had %r", h, got[a].v, ref_out[b[1]],
                )
                ctx.label("last results read")
            continue
        x, y = got[a], want[b]
        if y.ok:
            same = x.ok and (
                norm_dump(x.v) == norm_dump(y.v) if h["op"] == "dump" and h["level"] == 0 else x.v == y.v
            )
            ensure(same, "%r gave %r; a fresh transliterator gives %r", h, x.raw, y.v)
        else:
            ensure(x.exc == y.exc, "%r raised %r; a fresh transliterator raises %r", h, x.raw, y.exc)
    for a, b, h, texts in bulks:
        for text, x, y in zip(texts, got[a].v, want[b].v[::-1]):
            ensure(x == y, "%r: %r gave %r; a fresh transliterator gives %r", h, text, x, y)
    for k in finals:
        ensure(got[k].v is True, "settings or arguments were modified: %r", got[k].op)
    trans = [(a, h) for a, b, h in pairs if h["op"] == "trans"]
    state = {}
    mixed = False
    for a, h in trans:
        ok = "v" in got[a].v[0]
        ctx.label("transliteration ok" if ok else "transliteration failed")
        if ok and state.get(h["i"]) is False:
            mixed = True
        state[h["i"]] = ok
    for op in {h["op"] for h in hist}:
        ctx.label("with " + op)
    if mixed or len(state) > 1:
        ctx.nontrivial = len(insts) > 1
