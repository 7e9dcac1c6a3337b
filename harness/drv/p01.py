import io
import os

import gen
import snap
from snap import attr, amap, empty_log
from vlib import enc

TR = "Tr_P01"
CHUNKS = 2
MC = [{"module": "MC_P01", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
  Keys = {"a", "concept:name"}
  Types = {"literal", "list", "discrete"}
INIT Init
NEXT Next
VIEW View
INVARIANTS RoundTrip Emitted
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("every log of up to three building steps emitted by the model checker, every interesting value of every type at "
        "every level and inside every kind of parent, and seeded random logs with odd texts and keys, deep, wide and long ones, with up to 14 extensions of their own; "
        "each is built with the factory, written, read back and compared")
ASSUMPTIONS = ["characters XML 1.0 cannot carry are outside the domain", "children of collections are those in the collection"]


def everywhere(a):
    """The attribute at every place of a log."""
    for place in ("log", "trace", "event", "gt", "ge", "nested", "list", "container", "deep"):
        g = empty_log()
        g["tr"] = [{"m": {}, "ev": [{"m": {}}]}]
        if place == "log":
            g["m"] = amap(a)
        elif place == "trace":
            g["tr"][0]["m"] = amap(a)
        elif place == "event":
            g["tr"][0]["ev"][0]["m"] = amap(a)
        elif place in ("gt", "ge"):
            g[place] = [a]
        elif place == "nested":
            g["tr"][0]["ev"][0]["m"] = amap(attr("p", "literal", "sx", m=amap(a)))
        elif place in ("list", "container"):
            g["m"] = amap(attr("p", place, c=[a, dict(a, k="k2"), a]))
        else:
            b = a
            for i, t in enumerate(("list", "literal", "container", "discrete", "boolean", "id", "timestamp", "continuous")):
                if t in ("list", "container"):
                    b = attr("p%d" % i, t, c=[b])
                else:
                    b = attr("p%d" % i, t, {"literal": "s", "discrete": "i1", "boolean": "bfalse", "continuous": "f1.5", "timestamp": "d",
                                            "id": "u00000000-0000-0000-0000-000000000000"}[t],
                             [2020, 1, 1, 0, 0, 0, 0, 0] if t == "timestamp" else (), m=amap(b))
            g["tr"][0]["m"] = amap(b)
        yield place, g


def setup():
    snap.register_custom()


def cases(ctx):
    rng = ctx.rng("p01")
    out = []

    def add(name, logs, size):
        for i in range(0, len(logs), size):
            out.append({"id": "{}-{:04d}".format(name, i // size), "logs": logs[i:i + size]})
    mc = sorted(ctx.hist["MC_P01"], key=str)
    for g in mc:
        fix(g)
    add("mc", mc, 20)
    sys = []
    for a in gen.each_type():
        for place, g in everywhere(a):
            if place in ("event", "list", "nested", "gt", "deep") or ctx.thorough:
                sys.append(g)
    for k in gen.KEYS + ["k\nl", "\t", " ", "k" * 200]:
        for place, g in everywhere(attr(k, "literal", "sv")):
            sys.append(g)
    for s in ("a\nb", "a\tb", "a\rb", "\n", "a\r\nb", "\n\n  x", "x\n"):
        for place, g in everywhere(attr("k", "literal", "s" + enc(s))):
            sys.append(g)
    for cl in ([["c", ["concept:name"]]], [["c d", ["a b", "c"]], ["e", ["a", "b", "c d e"]]], [["<&>\"", ["k&", "<x>", "\"q\""]]],
               [["a", ["x"]], ["a", ["x"]], ["b", ["y", "x"]]], gen.STDCL, [["\u00e4", ["\u4e2d", "b\u00e4 c"]]], [["n", ["concept:name", "lifecycle:transition"]]]):
        g = empty_log()
        g["cl"] = [[enc(n), [enc(k) for k in ks]] for n, ks in cl]
        sys.append(g)
    for i in range(len(gen.STD) + 1):
        g = empty_log()
        g["ex"] = gen.STD[:i]
        sys.append(g)
        g = empty_log()
        g["ex"] = gen.STD[i:]
        sys.append(g)
    for n in (1000, 5000, 70000):
        g = empty_log()
        t = "".join(gen.text(rng, 20) for _ in range(n // 10))
        g["m"] = amap(attr("k" * (n // 50), "literal", "s" + enc(t)), attr("i", "discrete", "i" + "7" * min(n, 2000)))
        g["tr"] = [{"m": {}, "ev": [{"m": amap(*[attr("a%d" % i, "discrete", "i%d" % i) for i in range(min(n // 20, 300))])}]}]
        sys.append(g)
    add("sys", sys, 20)
    add("rnd", [gen.log(rng, depth=rng.choice((1, 2, 3)), line_breaks=rng.random() < .3) for _ in range(ctx.n(250, 6000))], 5)
    add("large", [gen.large_log(rng, i) for i in range(ctx.n(12, 200))], 1)
    add("long", gen.long_logs(rng) + gen.custom_logs(rng), 1)
    add("big", [gen.log(rng, traces=12, events=12, attrs=5, depth=3) for _ in range(ctx.n(4, 60))], 1)
    deep = attr("d", "literal", "sx")
    for i in range(40):
        deep = attr("d%d" % i, "list", c=[deep, deep]) if i % 7 == 0 and i < 22 else attr("d", "literal", "sx", m=amap(deep))
    g = empty_log()
    g["tr"] = [{"m": {}, "ev": [{"m": amap(deep)}]}]
    add("deep", [g], 1)
    for i, c in enumerate(out):
        c["io"] = ("text", "bytes", "file")[i % 3]
    return out


def fix(g):
    """A log the model checker printed: empty records and sets come as lists."""
    def fa(a):
        a["m"] = {k: fa(x) for k, x in a["m"].items()} if isinstance(a["m"], dict) else {}
        a["c"] = [fa(x) for x in a["c"]]
        return a

    def fm(m):
        return {k: fa(x) for k, x in m.items()} if isinstance(m, dict) else {}
    g["m"] = fm(g["m"])
    g["gt"], g["ge"] = [fa(x) for x in g["gt"]], [fa(x) for x in g["ge"]]
    for t in g["tr"]:
        t["m"] = fm(t["m"])
        for e in t["ev"]:
            e["m"] = fm(e["m"])


def trip(log, how, name):
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    if how == "file":
        p = os.path.join(os.environ["VERIF_SCRATCH"], name + ".xes")
        try:
            with open(p, "w") as f:
                XesXmlSerializer().serialize(log, f)
            with open(p) as f:
                return XesXmlParser().parse(f)
        finally:
            os.remove(p)
    o = io.StringIO()
    XesXmlSerializer().serialize(log, o)
    return XesXmlParser().parse(io.StringIO(o.getvalue()) if how == "text" else io.BytesIO(o.getvalue().encode("utf-8")))


def execute(case):
    ev = []
    for g in case["logs"]:
        log = snap.build_log(g, link=len(ev) % 5 == 3)
        before = snap.snap_log(log)
        e = {"op": "trip", "err": "", "n": 0, "before": before, "after": before}
        try:
            got = trip(log, case["io"], case["id"])
            e["n"] = len(got)
            e["after"] = snap.snap_log(got[0])
        except Exception as x:
            e["err"] = enc("{}: {}".format(type(x).__name__, x)[:200])
        ev.append(e)
        if e["err"] or e["n"] != 1 or len(ev) > 60:
            continue
        # what was read is a log like any other
        e = {"op": "trip", "err": "", "n": 0, "before": e["after"], "after": e["after"]}
        try:
            got = trip(got[0], case["io"], case["id"])
            e["n"] = len(got)
            e["after"] = snap.snap_log(got[0])
        except Exception as x:
            e["err"] = enc("{}: {}".format(type(x).__name__, x)[:200])
        ev.append(e)
    return ev
