"""The texts of objects."""
import random
import uuid

import gen
import snap
from vlib import dec, enc

TR = "Tr_P35"
CHUNKS = 3
MC = [{"module": "MC_P35", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Told
PROPERTIES Tells
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every history of additions and value changes in a list of lists up to the bound (sampled), seeded longer ones over attributes of every type and depth with nested attributes "
        "and copies, name mappings, the global mapping in a fresh process, time bounds, identities, event classes, classifiers and extensions, with the text asked after each change")
ASSUMPTIONS = ["names and keys of mappings hold no line break", "a mapping's lines and the global mapping's maps may come in any order"]


def cases(ctx):
    rng = ctx.rng("p35")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P35"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    for i, h in enumerate(rng.sample(hist, min(len(hist), ctx.n(1200, 15000)))):
        out.append({"id": "hist-{:05d}".format(i), "how": "hist", "ops": h, "seed": rng.randrange(10**9)})
    for how, n in (("tree", (500, 6000)), ("maps", (100, 1500)), ("bounds", (120, 1500)), ("names", (120, 1500)), ("ids", (30, 300)), ("large", (4, 20))):
        for i in range(ctx.n(*n)):
            out.append({"id": "{}-{:04d}".format(how, i), "how": how, "seed": rng.randrange(10**9), "fork": how == "maps"})
    return out


def shown(a):
    return {"text": enc(str(a)), "c": [shown(x) for x in a.get_collection()] if hasattr(a, "get_collection") else []}


def slim(r):
    return {"k": r["k"], "t": r["t"], "v": r["v"], "d": list(r["d"]), "c": [slim(x) for x in r["c"]]}


class Tree:
    def __init__(self, rng, recipe):
        self.rng, self.a, self.evs = rng, snap.build_attr(recipe), []
        self.see({"op": "tree", "a": slim(recipe)})

    def see(self, e):
        if self.rng.random() < .3:
            str(self.a)
        e["o"] = shown(self.a)
        e["copy"] = enc(str(self.a.clone()) if self.rng.random() < .5 else "{}".format(self.a))
        self.evs.append(e)

    def at(self, path):
        a = self.a
        for i in path:
            a = a.get_collection()[i - 1]
        return a

    def paths(self, a=None, p=()):
        a = a or self.a
        yield list(p)
        if hasattr(a, "get_collection"):
            for i, x in enumerate(a.get_collection()):
                yield from self.paths(x, p + (i + 1,))

    def set(self, path, v, d=()):
        a = self.at(path)
        t = snap.typ(a)
        r = snap.attr("", t, v, d)
        a.set_value(snap.value_of(r))
        self.see({"op": "set", "path": path, "a": slim(r)})

    def add(self, path, r):
        self.at(path).add_to_collection(snap.build_attr(r))
        self.see({"op": "add", "path": path, "a": slim(r)})

    def nest(self, path, r):
        b = snap.build_attr(r)
        self.at(path).get_attributes()[b.get_key()] = b
        self.see({"op": "nest"})


def execute(case):
    rng = random.Random(case["seed"])
    return {"hist": hist, "tree": tree, "large": tree, "maps": maps, "bounds": bounds, "names": names, "ids": ids}[case["how"]](case, rng)


def hist(case, rng):
    t = Tree(rng, snap.attr("l", rng.choice(("list", "container"))))
    real = {"literal": lambda: snap.attr("p", "literal", "sx"), "boolean": lambda: snap.attr("q", "boolean", "btrue"), "list": lambda: snap.attr("p", rng.choice(("list", "container"))),
            "id": lambda: snap.attr("r", "id", "u" + str(uuid.UUID(int=0x0a << 100)))}
    for op, path, x in case["ops"]:
        if op == "add":
            t.add(path, real[x]())
        else:
            t.set(path, "u" + str(uuid.UUID(int=int(x[1:], 16) << 96)) if x[0] == "u" else x)
    return t.evs


def tree(case, rng):
    large = case["how"] == "large"
    r = rng.random()
    t = Tree(rng, gen.tree(rng, rng.randrange(3), t=rng.choice(("list", "container"))) if r < .6 or large else gen.tree(rng, rng.randrange(2)))
    if large:
        path = []
        for i in range(60 if rng.random() < .5 else 5):
            t.add(path, snap.attr("deep", "list"))
            path = path + [len(t.at(path).get_collection())]
        for i in range(rng.choice((40, 70, 130))):
            t.add(path, gen.tree(rng, 0, k="" if i % 9 == 0 else None))
    for _ in range(rng.randrange(3, 12)):
        ps = list(t.paths())
        p = rng.choice(ps)
        a = t.at(p)
        if rng.random() < .15:
            t.nest(p, gen.tree(rng, rng.randrange(2)))
        elif hasattr(a, "get_collection"):
            t.add(p, gen.tree(rng, rng.randrange(2), k="" if rng.random() < .1 else None))
        else:
            v, d = gen.value(rng, snap.typ(a))
            t.set(p, v, d)
    return t.evs


def maps(case, rng):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XAttributeNameMap import XAttributeNameMap
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    g, free, evs = XGlobalAttributeNameMap(), XAttributeNameMap("Apart \u00e4"), []
    if rng.random() < .3:
        from opyenxes.extension.XExtensionManager import XExtensionManager
        XExtensionManager()
    known = {}
    keys = ["a", "b", "concept:name", "", " ", "a -> b", "k\u00e4", "cost:total", gen.text(rng, 6)]

    def lines(x):
        return [enc(y) for y in str(x).split("\n")]

    def see(e):
        e["each"] = {enc(n): lines(g.get_mapping(n)) for n in g.get_available_mapping_names()}
        e["free"], e["freename"], e["all"] = lines(free), enc("Apart \u00e4"), lines(g)
        evs.append(e)
    for n in g.get_available_mapping_names():
        m = g.get_mapping(n)
        known[enc(n)] = {}
        for y in str(m).split("\n")[1:]:
            k = y.split(" -> ")[0]
            known[enc(n)][enc(k)] = enc(m.map(k))
    see({"op": "maps", "m": known})
    for i in range(rng.choice((14, 25)) if rng.random() < .15 else 0):
        g.get_mapping("M{}".format(i))
        see({"op": "mapping", "n": enc("M{}".format(i))})
    for i in range(rng.choice((33, 60)) if rng.random() < .15 else 0):
        free.register_mapping("key{}".format(i), "alias {}".format(i))
        see({"op": "apart", "k": enc("key{}".format(i)), "v": enc("alias {}".format(i))})
    for _ in range(rng.randrange(3, 14)):
        n, k, v = rng.choice(("EN", "DE", "NL", "X\u00e4", "", "A")), rng.choice(keys), rng.choice(("x", "", "Name", "\u00fc", "a -> c", "x" * 30))
        key = k if rng.random() < .6 else XFactory.create_attribute_literal(k, "")
        r = rng.random()
        if r < .55:
            if rng.random() < .5:
                g.register_mapping(n, key, v)
            else:
                g.get_mapping(n).register_mapping(key, v)
            see({"op": "alias", "n": enc(n), "k": enc(k), "v": enc(v)})
        elif r < .7:
            g.get_mapping(n)
            see({"op": "mapping", "n": enc(n)})
        else:
            free.register_mapping(key, v)
            see({"op": "apart", "k": enc(k), "v": enc(v)})
    return evs


def bounds(case, rng):
    from opyenxes.info.XTimeBounds import XTimeBounds
    b, evs = XTimeBounds(), []

    def see(d):
        evs.append({"op": "bounds", "d": d, "text": enc(str(b))})
    see([])
    for _ in range(rng.randrange(1, 9)):
        d = gen.stamp(rng)
        b.register(snap.to_datetime(d))
        see(list(d))
    return evs


def names(case, rng):
    from urllib.parse import urlparse
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.classification.XEventClass import XEventClass
    from opyenxes.classification.XEventClasses import XEventClasses
    from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
    from opyenxes.extension.XExtension import XExtension
    evs = []
    for _ in range(4):
        n = rng.choice((gen.text(rng, 10), " " + gen.text(rng, 4) + " ", "a b", "None", "0", " ", ""))
        evs.append({"op": "name", "n": enc(n), "text": enc(str(XEventClass(n, rng.randrange(9)))), "classes": ""})
        evs.append({"op": "name", "n": enc(n), "text": enc(str(XExtension(n, rng.choice(("p", "concept")), urlparse("http://x.org/y.xesext")))), "classes": ""})
        c = rng.choice((lambda: XEventAttributeClassifier(n, ["a"]), lambda: XEventAttributeClassifier(n, ["a", "b", "c"])))()
        cs = XEventClasses(c)
        evs.append({"op": "name", "n": enc(n), "text": enc(str(c)), "classes": enc(str(cs))})
        m = rng.choice((gen.text(rng, 10), gen.text(rng, 3) + "  ", "&&"))
        c.set_name(m)
        cs.register(gen.text(rng, 3))
        evs.append({"op": "name", "n": enc(m), "text": enc(str(c)), "classes": enc(str(cs))})
        c, w = rng.choice(((XEventNameClassifier(), "Event Name"), (XEventResourceClassifier(), "Resource"), (XEventLifeTransClassifier(), "Lifecycle transition"),
                           (XEventAndClassifier([XEventNameClassifier(), XEventResourceClassifier()]), None)))
        evs.append({"op": "name", "n": enc(w or c.name()), "text": enc(str(c)), "classes": enc(str(XEventClasses(c)))})
        import acc
        a = rng.choice(sorted(acc.KEY))
        evs.append({"op": "name", "n": enc({"Organizational": "Organizational"}.get(acc.STEM[a][0], acc.STEM[a][0])), "text": enc(str(acc.ext(a))), "classes": ""})
    return evs


def ids(case, rng):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.id.XID import XID
    from opyenxes.id.XIDFactory import XIDFactory
    evs = []
    for _ in range(20):
        u = uuid.UUID(int=rng.choice((0, 1, 2**128 - 1, rng.getrandbits(128), rng.getrandbits(60))))
        i = rng.choice((lambda: XID(u), lambda: XID.parse(str(u)), lambda: XID(u).clone(), XIDFactory.create_id))()
        e = XFactory.create_event(None, i)
        evs.append({"op": "id", "v": str(i.get_uuid()), "text": str(e.get_id()), "held": str(XFactory.create_attribute_id("k", i))})
    return evs
