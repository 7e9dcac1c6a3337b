"""Nested cost values."""
import random

import acc
import gen
import snap
from vlib import dec, enc

TR = "Tr_P27"
CHUNKS = 3
MC = [{"module": "MC_P27", "workers": 3, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS OnePerPath FlatFirst Commutes
PROPERTIES Exact Keeps
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 3)}]
RULE = ("every history of assignments of two kinds along every path of two keys to depth two and of removals up to the bound; seeded longer ones on logs, traces, events and attributes "
        "with trees of every attribute type (lists and containers too), paths to depth five over shared, odd and existing keys, several values per call, all three kinds, nested and "
        "flat, values to be ignored, direct changes in between; after each step the whole tree and all nested and flat values of all kinds")
ASSUMPTIONS = ["key paths are not empty and do not go through cost values themselves", "attributes under the cost keys have the type of the cost value",
               "assigning a value that is ignored may create the path or not"]
KEYS = ["a", "b", "c", "A", "a:b", "", " ", "\u00e4", "x y", "cost", "concept:name", "cost:total"]


def cases(ctx):
    rng = ctx.rng("p27")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P27"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(1500, 20000)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(600, 8000)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    return out


def show(m):
    out = {}
    for k, a in sorted(m.items()):
        r = snap.snap_attr(a)
        r["m"] = show(a.get_attributes())
        out[enc(k)] = r
    return out


def tree(rng, depth):
    """A stored attribute, cost values below it of the right types."""
    k = rng.choice(KEYS)
    t = rng.choice(gen.TYPES)
    v, d = gen.value(rng, t)
    a = snap.attr(k, t, v, d, rng.choice(gen.STD) if rng.random() < .2 else "N")
    if t in ("list", "container"):
        a["c"] = [gen.tree(rng, 0) for _ in range(rng.randrange(0, 3))]
    if depth:
        for _ in range(rng.randrange(0, 3)):
            y = tree(rng, depth - 1)
            a["m"][y["k"]] = y
    for kind in ("amount", "driver", "type"):
        if rng.random() < .25:
            y = snap.attr("cost:" + kind, "continuous" if kind == "amount" else "literal", good(rng, kind) if rng.random() < .75 else rng.choice(("f0.0", "f-0.0", "f-2.5") if kind == "amount" else ("s", "s ")), (),
                          rng.choice(("N", "cost")))
            if rng.random() < .15:
                z = tree(rng, 0)
                y["m"][z["k"]] = z
            a["m"][y["k"]] = y
    return a


def good(rng, kind):
    if kind == "amount":
        return "f" + repr(acc.value(rng, "amount", 1))
    return "s" + enc(acc.value(rng, kind, 1))


def value(v):
    return float(v[1:]) if v[0] == "f" else dec(v[1:])


def execute(case):
    from opyenxes.extension.std.XCostExtension import XCostExtension
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["seed"])
    small = case["ops"] is not None
    f, x = XFactory(), XCostExtension()
    el = rng.choice((f.create_log, f.create_trace, f.create_event, lambda: f.create_attribute_literal("e", "v"), lambda: f.create_attribute_list("e")))()
    if not small:
        for _ in range(rng.randrange(0, 4)):
            a = snap.build_attr(tree(rng, 2))
            el.get_attributes()[a.get_key()] = a
        if rng.random() < .3:
            x.assign_amount(el, 3.5)
    evs = []

    def tag(kind, v):
        return snap.tagged("continuous" if kind == "amount" else "literal", v)

    def look(**ev):
        ev["m"] = show(el.get_attributes())
        ev["nested"], ev["flat"] = {}, {}
        for kind in ("amount", "driver", "type"):
            n = getattr(x, "extract_nested_{}s".format(kind))(el)
            ev["nested"][kind] = [[[enc(k) for k in p], tag(kind, v)] for p, v in n.items()]
            ev["flat"][kind] = [[enc(k), tag(kind, v)] for k, v in getattr(x, "extract_{}s".format(kind))(el).items()]
        evs.append(ev)

    def at(p):
        o = el
        for k in p:
            o = o.get_attributes()[k]
        return o

    def paths(m):
        for k, a in m.items():
            yield [k]
            for p in paths(a.get_attributes()):
                yield [k] + p

    def assign(kind, vs, flat=False, bad=None):
        if bad is not None:
            given = {(tuple(p) if not flat else p[0]): bad[0] for p, _ in vs}
        else:
            given = {(tuple(p) if not flat else p[0]): value(v) for p, v in vs}
        if not flat and not bad and len(vs) == 1 and rng.random() < .2 and vs[0][0] in list(paths(el.get_attributes())):
            getattr(x, "assign_" + kind)(at(vs[0][0]), value(vs[0][1]))
        else:
            getattr(x, "assign_{}{}s".format("" if flat else "nested_", kind))(el, given)
        look(op="assign", kind=kind, vs=[[[enc(k) for k in p], v] for p, v in vs], bad=bad is not None)

    def drop(p):
        del at(p[:-1]).get_attributes()[p[-1]]
        look(op="drop", p=[enc(k) for k in p])
    look(op="begin")
    if small:
        kinds = {"amount": "amount", "driver": rng.choice(("driver", "type"))}
        if rng.random() < .3:
            kinds = {"amount": "type", "driver": "driver"}
        val = {"f1.0": good(rng, kinds["amount"]), "f2.5": good(rng, kinds["amount"]), "sx": good(rng, "driver")}
        ren = dict(zip("ab", rng.sample(KEYS, 2)))
        names = dict({"cost:" + k: "cost:" + v for k, v in kinds.items()}, **ren)
        for op in case["ops"]:
            if op[0] == "assign":
                p = [ren[k] for k in op[2]]
                assign(kinds[op[1]], [[p, val[op[3]]]], len(p) == 1 and rng.random() < .5)
            else:
                drop([names[k] for k in op[1]])
    else:
        some = rng.sample(KEYS, 3)
        for _ in range(rng.randrange(3, 10)):
            r = rng.random()
            kind = rng.choice(("amount", "driver", "type"))
            there = [p for p in paths(el.get_attributes())]

            def path():
                if there and rng.random() < .4:
                    p = list(rng.choice(there))
                    while p and p[-1] in ("cost:amount", "cost:driver", "cost:type"):
                        p.pop()
                    if not any(k in ("cost:amount", "cost:driver", "cost:type") for k in p):
                        p = p + [rng.choice(some)] * rng.randrange(0, 2)
                        if p:
                            return p
                return [rng.choice(some if rng.random() < .8 else KEYS) for _ in range(rng.choice((1, 1, 2, 2, 3, 5)))]
            if r < .6:
                vs = {}
                flat = rng.random() < .3
                for _ in range(rng.choice((1, 1, 2, 4, 6))):
                    vs[tuple(path()[:1] if flat else path())] = good(rng, kind)
                assign(kind, [[list(p), v] for p, v in vs.items()], flat)
            elif r < .7:
                p = path()
                flat = len(p) == 1 and rng.random() < .5
                assign(kind, [[p, ""]], flat, [rng.choice((None, 0.0, -3.0) if kind == "amount" else (None, "", "  "))])
            elif r < .85 and there:
                drop(rng.choice(there))
            else:
                rec = tree(rng, 1)
                p = [] if not there or rng.random() < .3 else list(rng.choice(there))
                if p and p[-1].startswith("cost:"):
                    p = []
                p = p + [dec(rec["k"])]
                at(p[:-1]).get_attributes()[p[-1]] = snap.build_attr(rec)
                look(op="put", p=[enc(k) for k in p], at=show({p[-1]: at(p)})[enc(p[-1])])
    return evs
