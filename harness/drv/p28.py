"""Attribute name mappings."""
import importlib
import random

import gen
from vlib import enc, opt

TR = "Tr_P28"
CHUNKS = 2
FORK = True
MC = [{"module": "MC_P28", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS AlwaysNamed Preferred UnknownIsStandard OncePerName
PROPERTIES Apartness Kept
CHECK_DEADLOCK FALSE
""" % (6 if tier == "thorough" else 4)}]
RULE = ("every history of registrations by mapping name or through a mapping of its own, and of requests, up to the bound; seeded longer ones over eight names and many keys and "
        "aliases (empty, odd, equal to keys), registered by key or attribute, globally, through a global mapping or one apart; after each step every alias of every mapping, and "
        "safe names by mapping, mapping name, unknown name, key and attribute of every type; up to 40 mappings; with and without the standard extensions' aliases; each in a fresh process")
ASSUMPTIONS = []


def setup():
    for m in ("info.XGlobalAttributeNameMap", "info.XAttributeNameMap", "factory.XFactory", "extension.XExtensionManager"):
        importlib.import_module("opyenxes." + m)


def cases(ctx):
    rng = ctx.rng("p28")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P28"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(700, 12000)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(150, 2500)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    return out


def execute(case):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XAttributeNameMap import XAttributeNameMap
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    rng = random.Random(case["seed"])
    small = case["ops"] is not None
    g = XGlobalAttributeNameMap()
    std = rng.random() < .3
    if std:
        from opyenxes.extension.XExtensionManager import XExtensionManager
        XExtensionManager()
    f = XFactory()
    maps, evs = [], []
    keys = ["a", "b", "concept:name", "EN"] if small else ["a", "b", "A", "", "a:b", " ", "EN", "DE", "x", "concept:name", "org:group", "x/a", "y/x/b", "k\u00e4<&>", gen.text(rng, 9), "cost:total", "None"]
    names = ["EN", "DE", "FR"] if small else ["EN", "DE", "NL", "FR", "en", "", "EN ", "X\u00e4"]

    def number(m):
        for i, x in enumerate(maps, 1):
            if x is m:
                return i
        maps.append(m)
        return len(maps)

    def attribute(k):
        from datetime import datetime
        return rng.choice((lambda: f.create_attribute_literal(k, "a"), lambda: f.create_attribute_discrete(k, 1), lambda: f.create_attribute_list(k),
                           lambda: f.create_attribute_boolean(k, True), lambda: f.create_attribute_timestamp(k, datetime(2020, 1, 1)), lambda: f.create_attribute_container(k)))()

    def either(k):
        return k if rng.random() < .5 else attribute(k)

    def look(**ev):
        ns = list(g.get_available_mapping_names())
        known = list(range(1, len(maps) + 1))
        ask = names + [n for n in ns if n not in names]
        ks = keys if small else rng.sample(keys, 7)
        o = {"safe": [[i, enc(k), opt(g.map_safely(either(k), maps[i - 1]))] for i in known for k in ks],
             "byname": [[enc(n), enc(k), opt(g.map_safely(either(k), n))] for n in (ask if small else rng.sample(ask, min(len(ask), 4)) + ["unknown"]) for k in ks],
             "map": [[i, enc(k), opt(maps[i - 1].map(either(k)))] for i in known for k in ks],
             "std": [[enc(k), opt(g.map(either(k)))] for k in ks]}
        # what asking may have done shows here
        o["names"] = list(map(enc, g.get_available_mapping_names()))
        o["objs"] = [[enc(m.get_mapping_name()), number(m)] for m in g.get_available_mappings()]
        o["called"] = [[i, enc(m.get_mapping_name())] for i, m in enumerate(maps, 1)]
        ev["shown"] = o
        evs.append(ev)
    start = []
    for n in g.get_available_mapping_names():
        m = g.get_mapping(n)
        number(m)
        start.append({"name": enc(n), "al": {enc(k): "s" + enc(m.map(k)) for k in keys if m.map(k) is not None}})
    look(op="begin", maps=start, std=number(g.get_standard_mapping()))
    apart = []

    def mine(n):
        m = XAttributeNameMap(n)
        apart.append(number(m))
        look(op="apart", n=enc(n))

    def reg(n, k, a):
        if rng.random() < .5:
            g.register_mapping(n, either(k), a)
        else:
            g.get_mapping(n).register_mapping(either(k), a)
        number(g.get_mapping(n))
        look(op="reg", n=enc(n), k=enc(k), a=opt(a))

    def regat(i, k, a):
        maps[i - 1].register_mapping(either(k), a)
        look(op="regat", i=i, k=enc(k), a=opt(a))

    def get(n):
        got = number(g.get_mapping(n))
        look(op="get", n=enc(n), got=got)
    if small:
        mine("EN")
        for op in case["ops"]:
            if op[0] == "reg":
                reg(op[1], op[2], op[3][1:])
            elif op[0] == "mine":
                regat(apart[0], op[1], op[2][1:])
            else:
                get(op[1])
    else:
        crowd = ["L{}".format(i) for i in range(rng.choice((20, 40)) if rng.random() < .1 else 0)]
        for n in crowd:
            number(g.get_mapping(n))
            evs.append({"op": "quiet", "n": n})
            g.get_mapping(n).register_mapping("a", "A in " + n)
            evs.append({"op": "quietreg", "n": n, "k": "a", "a": opt("A in " + n)})
        if crowd:
            look(op="ask")
        als = ["", "x", "Name", "a", "EN", "None", "\u00e4 <&>", "Name der Aktivit\u00e4t"] + [gen.text(rng, 8)]
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            if r < .45:
                k = rng.choice(keys)
                reg(rng.choice(names), k, k if rng.random() < .15 else rng.choice(als))
            elif r < .75:
                k = rng.choice(keys)
                regat(rng.randrange(1, len(maps) + 1), k, k if rng.random() < .15 else rng.choice(als))
            elif r < .85:
                get(rng.choice(names))
            elif r < .9:
                mine(rng.choice(names))
            else:
                look(op="ask")
    return evs
