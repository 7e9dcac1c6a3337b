import io
import json
import os

import gen
import snap
import xesdoc as xd
from vlib import enc

import drv.p02 as p02
import drv.p05 as p05

TR = "Tr_P09"
CHUNKS = 2
FORK = True
MC = [{"module": "MC_P09", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Stable Owned
PROPERTIES Grows
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("histories of the machine over two XES and two MXML parsers (with and without a factory of their own), good and broken "
        "documents, parses begun inside another parse's reading, defaults changed, parsers rebuilt and earlier results wrecked; "
        "random documents and cut points; every result is compared with what a fresh process makes of the document, again after "
        "every operation, and searched for parts two results share")
ASSUMPTIONS = ["extensions are process-wide and may be shared", "factories are told apart by the elements they hand out"]


def cases(ctx):
    rng = ctx.rng("p09")
    hs = sorted(ctx.hist["MC_P09"], key=str)
    most = max(map(len, hs))
    hs = [h for h in hs if len(h) == most]
    out = []
    for i, h in enumerate(rng.sample(hs, min(len(hs), ctx.n(700, 12000)))):
        out.append({"id": "mc-{:05d}".format(i), "h": h})
    ps = ["x1", "x2", "m1", "m2"]

    def doc(p):
        return p[0].upper() + rng.choice("12B")
    for i in range(ctx.n(120, 3000)):
        h, n = [], 0
        for _ in range(10):
            r = rng.random()
            p, q = rng.choice(ps), rng.choice(ps)
            if r < .45:
                h.append(["parse", p, doc(p)])
            elif r < .65:
                h.append(["nest", p, p[0].upper() + rng.choice("12"), q, doc(q)])
            elif r < .85:
                h.append(["trash", rng.randrange(1, 6)])
            elif r < .93:
                h.append(["default", rng.choice(("F0", "F2"))])
            else:
                h.append(["build", rng.choice(("x1", "m1"))])
        out.append({"id": "rnd-{:05d}".format(i), "h": h})
    sets = []
    for i in range(ctx.n(80, 600)):
        docs = {}
        for n in ("X1", "X2"):
            docs[n] = xd.document(rng, p02.random_doc(rng, rng.choice((1, 2)), 2, .1), rng.choice(("odd", "std")))
        for n in ("M1", "M2"):
            docs[n] = p05.document(rng, p05.rand_doc(rng, 2))
        sets.append(docs)
    for i, c in enumerate(out):
        docs = dict(sets[i % len(sets)])
        docs["XB"] = broken(rng, docs["X1"], "</log")
        docs["MB"] = broken(rng, docs["M1"], "</WorkflowLog")
        c["docs"] = {k: enc(v) for k, v in docs.items()}
    return out


def broken(rng, text, end):
    cut = text.lower().rfind(end.lower())
    lo = text.find("<", text.find("?>") + 2 if text.startswith("<?") else 0)
    i = rng.randrange(lo + 1, max(lo + 2, cut if cut > 0 else len(text)))
    return text[:i] + rng.choice(("", "<", "</x>", "&nope;"))


class Marks:
    """Factories that remember what they made."""
    made = {}
    keep = []


def factories():
    from opyenxes.factory.XFactory import XFactory

    def make(label):
        def wrap(name):
            def f(self, *a, **k):
                r = getattr(XFactory(), name)(*a, **k)
                Marks.made[id(r)] = label
                Marks.keep.append(r)
                return r
            return f
        return type(label, (XFactory,), {n: wrap(n) for n in dir(XFactory) if n.startswith("create_")})()
    return {f: make(f) for f in ("F0", "F1", "F2")}


def setup():
    import xml.sax.expatreader
    import _strptime
    import opyenxes.utils.XsDateTimeConversion
    import opyenxes.id.XID
    import opyenxes.data_in.XesXmlParser
    import opyenxes.data_in.XMxmlParser
    import opyenxes.extension.XExtensionManager


def parser(kind, factory=None):
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    return (XesXmlParser if kind == "x" else XMxmlParser)(*([factory] if factory else []))


def digest(logs):
    return snap.digest([[snap.snap_log(g), snap.features(g)] for g in logs])


def reference(kind, text):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = digest(parser(kind).parse(io.StringIO(text)))
        except Exception:
            out = "fail"
        os.write(w, out.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    return out


def parts(logs):
    """Every mutable part of the logs."""
    out = {}

    def put(o):
        out[id(o)] = o

    def attribute(a):
        put(a)
        m = a.get_attributes()
        put(m)
        for x in m.values():
            attribute(x)
        if hasattr(a, "get_collection"):
            put(a.get_collection())
            for x in a.get_collection():
                attribute(x)

    def element(e):
        put(e)
        put(e.get_attributes())
        for a in e.get_attributes().values():
            attribute(a)
    for g in logs:
        element(g)
        put(g.get_extensions())
        put(g.get_classifiers())
        for c in g.get_classifiers():
            put(c)
        for s in (g.get_global_trace_attributes(), g.get_global_event_attributes()):
            put(s)
            for a in s:
                attribute(a)
        put(g.get_features())
        for t in g:
            element(t)
            for e in t:
                element(e)
    return out


def makers(kind, logs):
    by = set()

    def attribute(a):
        by.add(Marks.made.get(id(a), "?"))
        for x in list(a.get_attributes().values()) + (list(a.get_collection()) if hasattr(a, "get_collection") else []):
            attribute(x)

    def element(e):
        by.add(Marks.made.get(id(e), "?"))
        if kind == "x":
            for a in e.get_attributes().values():
                attribute(a)
    for g in logs:
        element(g)
        if kind == "x":
            for a in list(g.get_global_trace_attributes()) + list(g.get_global_event_attributes()):
                attribute(a)
        for t in g:
            element(t)
            for e in t:
                element(e)
    return sorted(by)


def trash(logs):
    """Change everything that can be changed."""
    from opyenxes.factory.XFactory import XFactory

    def attribute(a):
        for x in a.get_attributes().values():
            attribute(x)
        if hasattr(a, "get_collection"):
            for x in a.get_collection():
                attribute(x)
            a.add_to_collection(XFactory().create_attribute_literal("trash", "t", None))
        elif isinstance(a.get_value(), str):
            a.set_value("trash")
        elif isinstance(a.get_value(), bool):
            a.set_value(not a.get_value())
        elif isinstance(a.get_value(), (int, float)):
            a.set_value(a.get_value() + 1 if a.get_value() == a.get_value() else 0)
        x = XFactory().create_attribute_literal("trash", "t", None)
        a.get_attributes()["trash"] = x

    def element(e):
        for a in e.get_attributes().values():
            attribute(a)
        e.get_attributes()["trash"] = XFactory().create_attribute_literal("trash", "t", None)
    for g in logs:
        element(g)
        for t in g:
            element(t)
            for e in t:
                element(e)
        for s in (g.get_global_trace_attributes(), g.get_global_event_attributes()):
            for a in s:
                attribute(a)
            s.append(XFactory().create_attribute_literal("trash", "t", None))
        for c in g.get_classifiers():
            c.set_name("trash")
        g.get_classifiers().reverse()
        g.get_extensions().clear()
        g.get_features()["trash"] = "t"
        g.append(XFactory().create_trace())


class Nested(io.StringIO):
    """A stream that lets another parse happen while it is read."""

    def __init__(self, text, action):
        super().__init__(text)
        self.action, self.step, self.n = action, max(1, len(text) // 5), 0

    def read(self, size=-1):
        if size == 0:
            return ""
        self.n += 1
        if self.n == 3:
            self.action()
        return super().read(self.step)


def execute(case):
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    from vlib import dec
    docs = {k: dec(v) for k, v in case["docs"].items()}
    ref = {k: reference(k[0].lower(), v) for k, v in docs.items()}
    fs = factories()
    ev, results, left = [], [], []
    XFactoryRegistry().set_current_default(fs["F0"])
    ps = {}
    for p in ("x1", "x2", "m1", "m2"):
        own = "F1" if p[1] == "2" else "none"
        ps[p] = parser(p[0], fs.get(own))
        ev.append({"op": "build", "p": p, "own": own})

    def look():
        now = [digest(r) for r in results]
        moved = [a is not None and a != b for a, b in zip(left, now)]
        seen, shared, held = {}, 0, []
        for i, r in enumerate(results):
            held.append(parts(r))
            for k in held[-1]:
                if seen.setdefault(k, i) != i:
                    shared += 1
        # and the logs of one result among themselves
        for r in results:
            own = {}
            for i, g in enumerate(r):
                held.append(parts([g]))
                for k in held[-1]:
                    if own.setdefault(k, i) != i:
                        shared += 1
        return {"all": now, "moved": moved, "shared": shared}

    def parse(p, d, stream=None):
        e = {"op": "parse", "p": p, "d": d, "out": "fail", "by": []}
        try:
            got = ps[p].parse(stream or io.StringIO(docs[d]))
            e["out"] = digest(got)
            e["by"] = makers(p[0], got)
            results.append(got)
            left.append(None)
        except Exception:
            pass
        e.update(look())
        ev.append(e)
    for op in case["h"]:
        if op[0] == "build":
            ps[op[1]] = parser(op[1][0])
            ev.append({"op": "build", "p": op[1], "own": "none"})
        elif op[0] == "default":
            XFactoryRegistry().set_current_default(fs[op[1]])
            ev.append({"op": "default", "f": op[1]})
        elif op[0] == "trash":
            if op[1] <= len(results):
                trash(results[op[1] - 1])
                left[op[1] - 1] = digest(results[op[1] - 1])
                e = {"op": "trash", "r": op[1]}
                e.update(look())
                ev.append(e)
        elif op[0] == "parse":
            parse(op[1], op[2])
        else:
            parse(op[1], op[2], Nested(docs[op[2]], lambda: parse(op[3], op[4])))
    return {"ref": ref, "ev": ev}
