"""Histories of clones and mutations over every kind of element."""
import json
import uuid

import gen
import snap
from snap import attr, amap
from vlib import enc, dec

TR = "Tr_P10"
CHUNKS = 2
MC = [{"module": "MC_P10", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
  Places = 2
INIT Init
NEXT Next
VIEW view
INVARIANTS NoSharing
PROPERTIES OneAtATime Faithful
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("for sample attributes of each type, maps, events, traces and logs: every mutable place of the structure (value, identity, "
        "attribute map, nested attribute, collection, events, traces, extensions, classifiers, globals, features, cached summary) is "
        "changed through the source and through the clone and through a clone of the clone; plus every clone/mutation history the "
        "heap machine admits within its bounds over seeded random structures")
ASSUMPTIONS = ["classifiers, extensions and feature values are values: entries may be the same objects in both logs, their own contents are not changed"]


# ---- observation: the whole structure, maps of collections included

def full_attr(a):
    t = snap.typ(a)
    coll = t in ("list", "container")
    v = None if coll else a.get_value()
    return [a.get_key(), t, "" if coll else snap.tagged(t, v), snap.fields(v) if t == "timestamp" else [], ext_id(a.get_extension()),
            full_map(a.get_attributes()), [full_attr(c) for c in a.get_collection()] if coll else []]


def ext_id(x):
    return None if x is None else [x.get_name(), x.get_prefix(), str(x.get_uri())]


def full_map(m):
    return {enc(k): full_attr(a) for k, a in m.items()}


def full(o):
    k = kind(o)
    if k == "attr":
        return ["attr", full_attr(o)]
    if k == "map":
        return ["map", full_map(o)]
    r = [k, full_map(o.get_attributes())]
    if k in ("trace", "log"):
        r.append([full(e) for e in o])
    if k == "log":
        r.append([full_attr(a) for a in o.get_global_trace_attributes()])
        r.append([full_attr(a) for a in o.get_global_event_attributes()])
        r.append([[c.name(), list(c.get_defining_attribute_keys())] for c in o.get_classifiers()])
        r.append(sorted(map(str, (ext_id(x) for x in o.get_extensions()))))
        r.append(sorted((str(k), str(v)) for k, v in o.get_features().items()))
    return r


def kind(o):
    from opyenxes.model.XAttribute import XAttribute
    from opyenxes.model.XAttributeMap import XAttributeMap
    from opyenxes.model.XEvent import XEvent
    from opyenxes.model.XLog import XLog
    from opyenxes.model.XTrace import XTrace
    for n, c in (("attr", XAttribute), ("map", XAttributeMap), ("event", XEvent), ("trace", XTrace), ("log", XLog)):
        if isinstance(o, c):
            return n
    return "?" + type(o).__name__


def ids(o):
    k = kind(o)
    if k == "event":
        return [str(o.get_id())]
    if k in ("trace", "log"):
        return [i for e in o for i in ids(e)]
    return []


def observe(roots, infos, cls):
    out = []
    for o in roots:
        info = []
        if kind(o) == "log":
            for c in cls:
                got = o.get_info(c)
                info.append("none" if got is None else str([i for i, x in enumerate(infos) if x is got]))
        out.append({"d": snap.digest(full(o)), "ids": ids(o), "info": info})
    return out


# ---- every mutable place

def fresh(n):
    from opyenxes.model.XAttributeLiteral import XAttributeLiteral
    return XAttributeLiteral("fresh{}".format(n), "v{}".format(n))


def new_value(a, n):
    from datetime import datetime, timezone
    from opyenxes.id.XID import XID
    t = snap.typ(a)
    return {"literal": "new{}".format(n), "discrete": 777000 + n, "continuous": 0.5 + n, "timestamp": datetime(2001, 2, 3, 4, 5, n % 60, 7000, timezone.utc),
            "id": XID(uuid.UUID(int=99000 + n))}.get(t, None if t != "boolean" else not a.get_value())


def map_spots(m, path):
    yield path + "+", lambda n: m.__setitem__("fresh{}".format(n), fresh(n))
    if len(m):
        yield path + "clear", lambda n: m.clear()
    for k in list(m):
        yield path + "-" + k, lambda n, k=k: m.pop(k, None)
        yield path + "=" + k, lambda n, k=k: m.__setitem__(k, fresh(n))
        yield from attr_spots(m[k], path + k)


def attr_spots(a, path):
    from opyenxes.model.XAttributeMap import XAttributeMap
    t = snap.typ(a)
    if t in ("list", "container"):
        yield path + ".add", lambda n: a.add_to_collection(fresh(n))
        for i, c in enumerate(a.get_collection()):
            yield from attr_spots(c, "{}[{}]".format(path, i))
    else:
        yield path + ".value", lambda n: a.set_value(new_value(a, n))
        if t == "timestamp":
            yield path + ".millis", lambda n: a.set_value_millis(123456000 + n)
        if t == "id":
            yield path + ".uuid", lambda n: a.get_value().set_uuid(uuid.UUID(int=55000 + n))
    yield path + ".map", lambda n: a.set_attributes(XAttributeMap({"fresh{}".format(n): fresh(n)}))
    yield from map_spots(a.get_attributes(), path + "/")


def list_spots(l, make, path):
    yield path + ".append", lambda n: l.append(make(n))
    yield path + ".insert", lambda n: l.insert(0, make(n))
    if len(l):
        yield path + ".pop", lambda n: l and l.pop()
        yield path + ".set", lambda n: l and l.__setitem__(0, make(n))
        yield path + ".clear", lambda n: l.clear()
    if len(l) > 1:
        yield path + ".reverse", lambda n: l.reverse()


def new_event(n):
    from opyenxes.model.XEvent import XEvent
    from opyenxes.model.XAttributeMap import XAttributeMap
    return XEvent(XAttributeMap({"fresh": fresh(n)}))


def new_trace(n):
    from opyenxes.model.XTrace import XTrace
    from opyenxes.model.XAttributeMap import XAttributeMap
    t = XTrace(XAttributeMap({"fresh": fresh(n)}))
    t.append(new_event(n))
    return t


def new_classifier(n):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    return XEventAttributeClassifier("fresh{}".format(n), ["k"])


def spots(o, path="", infos=(), cls=()):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.id.XID import XID
    from opyenxes.model.XAttributeMap import XAttributeMap
    k = kind(o)
    if k == "attr":
        yield from attr_spots(o, path)
        return
    if k == "map":
        yield from map_spots(o, path)
        return
    yield path + ".map", lambda n: o.set_attributes(XAttributeMap({"fresh{}".format(n): fresh(n)}))
    yield from map_spots(o.get_attributes(), path + "/")
    if k == "event":
        yield path + ".id", lambda n: o.set_id(XID(uuid.UUID(int=777000 + n)))
        yield path + ".uuid", lambda n: o.get_id().set_uuid(uuid.UUID(int=888000 + n))
    if k == "trace":
        yield from list_spots(o, new_event, path)
        yield path + ".ordered", lambda n: o.insert_ordered(new_event(n))
    if k == "log":
        yield from list_spots(o, new_trace, path)
        yield from list_spots(o.get_global_trace_attributes(), fresh, path + ".gt")
        yield from list_spots(o.get_global_event_attributes(), fresh, path + ".ge")
        for nm, l in (("gt", o.get_global_trace_attributes()), ("ge", o.get_global_event_attributes())):
            for i, a in enumerate(l):
                yield from attr_spots(a, "{}.{}{}".format(path, nm, i))
        yield from list_spots(o.get_classifiers(), new_classifier, path + ".cl")
        ex = o.get_extensions()
        yield path + ".ex+", lambda n: ex.add(XExtensionManager().get_by_index(n % 8))
        yield path + ".exswap", lambda n: ex.symmetric_difference_update({XExtensionManager().get_by_index(i) for i in range(8)})
        yield path + ".ex0", lambda n: ex.clear()
        yield path + ".feature", lambda n: o.set_features("fresh{}".format(n), "v")
        yield path + ".feature=", lambda n: o.get_features().update({f: "changed" for f in list(o.get_features())})
        yield path + ".feature0", lambda n: o.get_features().clear()
        for ci in range(len(cls)):
            yield path + ".info{}".format(ci), lambda n, ci=ci: o.set_info(cls[ci], infos[n % len(infos)])
    if k in ("trace", "log"):
        for i, e in enumerate(o):
            yield from spots(e, "{}[{}]".format(path, i))


# ---- cases

def samples(rng):
    ts = [2017, 1, 2, 3, 4, 5, 678901, 330]
    lit = attr("a", "literal", "sx", x="concept", m=amap(attr("b", "discrete", "i1", m=amap(attr("c", "boolean", "btrue"))), attr("d", "timestamp", "d", ts)))
    lst = attr("l", "list", c=[attr("a", "literal", "s1"), attr("a", "literal", "s2"), attr("n", "container", c=[attr("i", "id", "u" + str(uuid.UUID(int=5)))])])
    out = [lit, lst, attr("t", "timestamp", "d", ts, x="time", m=amap(attr("b", "continuous", "f1.5"))),
           attr("n", "timestamp", "d", ts[:7] + [snap.NAIVE]),
           attr("i", "discrete", "i7", m=amap(attr("b", "id", "u" + str(uuid.UUID(int=3))))), attr("f", "continuous", "f2.5", m=amap(attr("b", "literal", "s"))),
           attr("o", "boolean", "bfalse", m=amap(attr("b", "boolean", "btrue"))), attr("u", "id", "u" + str(uuid.UUID(int=9)), m=amap(attr("b", "list", c=[attr("c", "literal", "sq")]))),
           attr("c", "container", x="cost", c=[attr("z", "list", c=[attr("y", "timestamp", "d", ts)]), attr("b", "continuous", "f0.0", m=amap(attr("q", "discrete", "i3")))]),
           attr("e", "list"), attr("e2", "container"), attr("s", "literal", "s")]
    kinds = [["attr", a] for a in out]
    kinds.append(["map", amap(*out[:2], out[7])])
    kinds.append(["map", {}])
    e = {"m": amap(lit, out[2], out[7], lst)}
    kinds += [["event", e], ["event", {"m": {}}], ["trace", {"m": amap(lst), "ev": [e, {"m": amap(out[3])}, {"m": {}}]}], ["trace", {"m": {}, "ev": []}]]
    log = snap.empty_log()
    log.update({"m": amap(lit, out[8]), "gt": [lit, out[9]], "ge": [lst, out[7]], "ex": ["concept", "time"], "cl": [["c", ["a", "b"]], ["d", ["a"]]],
                "tr": [{"m": amap(out[6]), "ev": [e, {"m": amap(out[3])}]}, {"m": {}, "ev": []}]})
    kinds += [["log", log], ["log", snap.empty_log()]]
    return kinds


def random_kind(rng, i):
    k = ["attr", "map", "event", "trace", "log"][i % 5]
    if k == "attr":
        return [k, gen.tree(rng, 3)]
    if k == "map":
        return [k, gen.amap_of(rng, 3, 2)]
    if k == "event":
        return [k, {"m": gen.amap_of(rng, 3, 2)}]
    log = gen.log(rng, 2, 2, 2, 2)
    return [k, log] if k == "log" else [k, (log["tr"] + [{"m": gen.amap_of(rng, 2, 2), "ev": [{"m": gen.amap_of(rng, 2, 2)}]}])[0]]


def cases(ctx):
    rng = ctx.rng("p10")
    out = []
    for i, k in enumerate(samples(rng)):
        for link in (False, True):
            if link and '"c": [{' not in json.dumps(k):
                continue
            out.append({"id": "spots-{:02d}{}".format(i, "l" if link else ""), "make": k, "link": link, "every": True})
    for i in range(ctx.n(15, 200)):
        out.append({"id": "random-{:04d}".format(i), "make": random_kind(rng, i), "link": rng.random() < .3, "every": True, "max": ctx.n(80, 400), "seed": rng.randrange(10**9)})
    for i in range(ctx.n(8, 60)):      # many nested attributes or children
        t = gen.TYPES[i % 8]
        a = gen.tree(rng, 0, k="wide", t=t)
        kids = [gen.tree(rng, 0, k="k%d" % j) for j in range(rng.randrange(9, 40))]
        a.update({"c": kids} if t in ("list", "container") else {"m": amap(*kids)})
        mk = [["attr", a], ["event", {"m": amap(a, *kids)}], ["map", amap(a, *kids)], ["trace", {"m": amap(a), "ev": [{"m": amap(kids[0])} for _ in range(20)]}]][i // 2 % 4]
        out.append({"id": "wide-{:04d}".format(i), "make": mk, "link": rng.random() < .3, "every": True, "max": 30, "seed": rng.randrange(10**9)})
    for i, k in enumerate(samples(rng)):
        if k[0] == "log":
            out.append({"id": "bare-{:02d}".format(i), "make": k, "link": False, "every": True, "bare": True})
    for i in range(ctx.n(8, 100)):
        out.append({"id": "large-{:04d}".format(i), "make": ["log", gen.large_log(rng, i, 12)], "link": False, "every": True, "max": 12, "seed": rng.randrange(10**9)})
    hist = [h for h in ctx.hist["MC_P10"] if any(o[0] == "clone" for o in h)]
    base = samples(rng)
    rich = [k for k in base if k[1]]
    hist.sort(key=lambda h: (len(h), str(h)))
    pick = hist if ctx.thorough else [h for i, h in enumerate(hist) if len(h) < 4 or i % 3 == 0]
    for i, h in enumerate(pick):
        k = rich[i % len(rich)] if i % 3 else random_kind(rng, i // 3)
        out.append({"id": "hist-{:05d}".format(i), "make": k, "link": i % 2 == 0, "ops": h, "seed": rng.randrange(10**9)})
    return out


def build(mk, link, bare=False):
    from opyenxes.model.XAttributeMap import XAttributeMap
    k, r = mk
    if k == "attr":
        return snap.build_attr(r, link=link)
    if k == "map":
        m = XAttributeMap()
        for kk, a in r.items():
            m[dec(kk)] = snap.build_attr(a, link=link)
        return m
    if k == "event":
        return snap.build_event(r, link=link)
    if k == "trace":
        return snap.build_trace(r, link=link)
    o = snap.build_log(r, link=link)
    if not bare:
        o.set_features("xes.features", "nested")
        o.set_features("other", "")
    return o


class Info:
    pass


def world(case):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    infos = [Info(), Info(), Info()]
    cls = [XEventNameClassifier(), XEventAttributeClassifier("fresh", ["k"])]
    o = build(case["make"], case["link"], case.get("bare"))
    if kind(o) == "log" and not case.get("bare"):
        o.set_info(cls[0], infos[0])
    return [o], infos, cls


def execute(case):
    import random
    if case.get("every"):
        return every(case)
    rng = random.Random(case["seed"])
    roots, infos, cls = world(case)
    evs = [{"op": "make", "all": observe(roots, infos, cls)}]
    for n, o in enumerate(case["ops"]):
        i = o[1]
        if o[0] == "clone":
            roots.append(roots[i - 1].clone())
            evs.append({"op": "clone", "i": i, "all": observe(roots, infos, cls)})
        else:
            sp = list(spots(roots[i - 1], "", infos, cls))
            # one half of the places for each abstract place
            part = sp[o[2] - 1::2] or sp
            name, do = part[rng.randrange(len(part))]
            do(n)
            evs.append({"op": "mut", "i": i, "n": n, "at": enc(name), "all": observe(roots, infos, cls)})
    return evs


def every(case):
    import random
    probe, infos, cls = world(case)
    names = [n for n, _ in spots(probe[0], "", infos, cls)]
    plan = [(j, side) for j in range(len(names)) for side in (1, 2, 3)]
    if len(plan) > case.get("max", 10**9):
        plan = random.Random(case["seed"]).sample(plan, case["max"])
    evs = []
    for n, (j, side) in enumerate(plan):
        new, infos, cls = world(case)
        trio = [new[0]]
        steps = [("make", None), ("clone", 1)] + ([("clone", 2)] if side == 3 else []) + [("mut", side)]
        for what, i in steps:
            ev = {"op": what}
            if what == "clone":
                trio.append(trio[i - 1].clone())
                ev["i"] = i
            elif what == "mut":
                sp = list(spots(trio[i - 1], "", infos, cls))
                if j >= len(sp):
                    continue
                sp[j][1](n)
                ev.update({"i": i, "n": n, "at": enc(sp[j][0])})
            ev["all"] = observe(trio, infos, cls)
            ev["part"] = n
            evs.append(ev)
    return evs
