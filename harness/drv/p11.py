"""Creating elements, changing them, looking at all of them."""
import random
import uuid

import snap
from drv import p10
from snap import digest
from vlib import enc

TR = "Tr_P11"
CHUNKS = 2
MC = [{"module": "MC_P11", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Unique
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("every history of creations (no map, a map, an empty map; supplied identity or not) and changes the machine admits, over all kinds of "
        "elements by factory and by constructor, every pair of kinds with every change of the first, seeded longer histories with "
        "events shared between traces and given equal identities, and matrices of identity comparisons and texts")
ASSUMPTIONS = ["an element given a map may keep or copy it: elements given the same map are not required to be isolated from each other's map changes",
               "random identities do not collide by chance"]


# ---- kinds: name -> (class in the machine, takes map, maker(map, id))

def kinds():
    from datetime import datetime, timezone
    from opyenxes.factory.XFactory import XFactory as F
    from opyenxes.id.XID import XID
    from opyenxes.model.XAttributable import XAttributable
    from opyenxes.model.XAttribute import XAttribute
    from opyenxes.model.XAttributeBoolean import XAttributeBoolean
    from opyenxes.model.XAttributeCollection import XAttributeCollection
    from opyenxes.model.XAttributeContainer import XAttributeContainer
    from opyenxes.model.XAttributeContinuous import XAttributeContinuous
    from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
    from opyenxes.model.XAttributeID import XAttributeID
    from opyenxes.model.XAttributeList import XAttributeList
    from opyenxes.model.XAttributeLiteral import XAttributeLiteral
    from opyenxes.model.XAttributeMap import XAttributeMap
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    from opyenxes.model.XElement import XElement
    from opyenxes.model.XEvent import XEvent
    from opyenxes.model.XLog import XLog
    from opyenxes.model.XTrace import XTrace
    some = {"literal": ("v", XAttributeLiteral), "discrete": (7, XAttributeDiscrete), "continuous": (1.5, XAttributeContinuous), "boolean": (False, XAttributeBoolean),
            "timestamp": (datetime(2017, 1, 2, 3, 4, 5, 6000, timezone.utc), XAttributeTimestamp), "id": (XID(uuid.UUID(int=77)), XAttributeID)}
    ks = {
        "F.event": ("event", 1, lambda m, i: F().create_event(m, i) if m is not None or i is not None else F().create_event()),
        "F.event2": ("event", 1, lambda m, i: F().create_event(attribute=m, identity=i)),
        "F.event3": ("event", 0, lambda m, i: F().create_event(None, i) if i is not None else F().create_event()),
        "event": ("event", 1, lambda m, i: XEvent(m, i)),
        "event2": ("event", 1, lambda m, i: XEvent(attributes=m, identity=i) if m is not None else XEvent(identity=i)),
        "F.trace": ("other", 1, lambda m, i: F().create_trace(m) if m is not None else F().create_trace()),
        "trace": ("other", 1, lambda m, i: XTrace(m)),
        "F.log": ("other", 1, lambda m, i: F().create_log(m) if m is not None else F().create_log()),
        "log": ("other", 1, lambda m, i: XLog(m)),
        "element": ("other", 1, lambda m, i: XElement(m) if m is not None else XElement()),
        "attributable": ("other", 1, lambda m, i: XAttributable(m) if m is not None else XAttributable()),
        "F.map": ("coll", 0, lambda m, i: F().create_attribute_map()),
        "map": ("coll", 0, lambda m, i: XAttributeMap()),
        "map2": ("other", 1, lambda m, i: XAttributeMap(m)),
        "F.list": ("coll", 0, lambda m, i: F().create_attribute_list("k")),
        "list": ("coll", 0, lambda m, i: XAttributeList("k")),
        "F.container": ("coll", 0, lambda m, i: F().create_attribute_container("k")),
        "container": ("coll", 0, lambda m, i: XAttributeContainer("k")),
        "collection": ("coll", 0, lambda m, i: XAttributeCollection("k")),
        "attribute": ("coll", 0, lambda m, i: XAttribute("k")),
    }
    for t, (v, c) in some.items():
        ks["F." + t] = ("coll", 0, lambda m, i, t=t, v=v: getattr(F(), "create_attribute_" + t)("k", v))
        ks[t] = ("coll", 0, lambda m, i, c=c, v=v: c("k", v))
    return ks



class World:
    def __init__(self):
        from opyenxes.model.XAttributeMap import XAttributeMap
        from opyenxes.model.XAttributeLiteral import XAttributeLiteral
        from opyenxes.model.XAttributeList import XAttributeList
        a, b = XAttributeLiteral("a", "1"), XAttributeList("b")
        b.add_to_collection(XAttributeLiteral("c", "2"))
        a.get_attributes()["n"] = XAttributeLiteral("n", "3")
        self.given = [None, XAttributeMap({"a": a, "b": b}), XAttributeMap()]
        self.el, self.cls, self.ks = [], [], kinds()
        self.extra = []

    # ---- observation
    def index(self, o):
        for name, l in (("e", self.el), ("x", self.extra)):
            for i, x in enumerate(l):
                if x is o:
                    return name + str(i)
        return "?"

    def rest(self, o):
        from opyenxes.model.XAttribute import XAttribute
        from opyenxes.model.XAttributeCollection import XAttributeCollection
        from opyenxes.model.XEvent import XEvent
        from opyenxes.model.XLog import XLog
        from opyenxes.model.XTrace import XTrace
        r = [type(o).__name__]
        if isinstance(o, XAttribute):
            r += [o.get_key(), p10.ext_id(o.get_extension())]
            if isinstance(o, XAttributeCollection):
                r += [[p10.full_attr(c) for c in o.get_collection()]]
            elif hasattr(o, "get_value"):
                t = snap.typ(o)
                r += [t, snap.tagged(t, o.get_value()), snap.fields(o.get_value()) if t == "timestamp" else []]
        elif isinstance(o, (XTrace, XLog)):
            r += [[self.index(e) for e in o]]
        if isinstance(o, XLog):
            r += [[p10.full_attr(a) for a in o.get_global_trace_attributes()], [p10.full_attr(a) for a in o.get_global_event_attributes()],
                  [c.name() for c in o.get_classifiers()], sorted(x.get_prefix() for x in o.get_extensions()), sorted(map(str, o.get_features().items())),
                  [o.get_info(c) is not None for c in classifiers()]]
        return digest(r)

    def map_of(self, o):
        from opyenxes.model.XAttributeMap import XAttributeMap
        return digest(p10.full_map(o if isinstance(o, XAttributeMap) else o.get_attributes()))

    def look(self):
        from opyenxes.model.XAttributeMap import XAttributeMap
        from opyenxes.model.XEvent import XEvent
        from opyenxes.model.XTrace import XTrace
        out = []
        for o in self.el:
            isev, istr = isinstance(o, XEvent), isinstance(o, XTrace)
            h = [str(hash(o)), str(hash(o))] if isev or istr else ["none", "none"]
            out.append({"m": self.map_of(o), "r": self.rest(o), "id": str(o.get_id()).lower() if isev else "none", "h": h[0], "h2": h[1]})
        evs = [i for i, o in enumerate(self.el) if isinstance(o, XEvent)]
        trs = [i for i, o in enumerate(self.el) if isinstance(o, XTrace)]
        return {"all": out,
                "eq": [[i + 1, j + 1] for i in evs for j in evs if self.el[i] == self.el[j]],
                "ne": [[i + 1, j + 1] for i in evs for j in evs if self.el[i] != self.el[j]],
                "teq": [[i + 1, j + 1] for i in trs for j in trs if self.el[i] == self.el[j]]}

    # ---- operations
    def new(self, name, g, idn):
        from opyenxes.id.XID import XID
        cls, takes, make = self.ks[name]
        m = self.given[g] if takes else None
        given_id = "none" if cls != "event" else "fresh" if idn == 0 else str(uuid.UUID(int=1000 + idn))
        want_m = digest(p10.full_map(m)) if m is not None else digest({})
        o = make(m, XID(uuid.UUID(given_id)) if idn and cls == "event" else None)
        self.el.append(o)
        self.cls.append(cls)
        return {"op": "new", "first": len(self.el) == 1, "g": g if takes else 0, "id": given_id, "kind": name, "m": want_m, "r": self.pure(o, name), **self.look()}

    def pure(self, o, name):
        """What an element of this kind has to carry besides its map."""
        r = [type(o).__name__]
        base = name.replace("F.", "")
        if base in ("literal", "discrete", "continuous", "boolean", "timestamp", "id"):
            v, d = {"literal": ("sv", []), "discrete": ("i7", []), "continuous": ("f1.5", []), "boolean": ("bfalse", []),
                    "timestamp": ("d", [2017, 1, 2, 3, 4, 5, 6000, 0]), "id": ("u" + str(uuid.UUID(int=77)), [])}[base]
            r += ["k", None, base, v, d]
        elif base in ("list", "container", "collection"):
            r += ["k", None, []]
        elif base == "attribute":
            r += ["k", None]
        elif base == "trace":
            r += [[]]
        elif base == "log":
            r += [[], [], [], [], [], [], [False] * len(classifiers())]
        return digest(r)

    def change_map(self, i, n, rng):
        from opyenxes.model.XAttributeMap import XAttributeMap
        o = self.el[i]
        m = o if isinstance(o, XAttributeMap) else o.get_attributes()
        sp = list(p10.map_spots(m, ""))
        if o is not m:
            sp.append(("set", lambda n: o.set_attributes(XAttributeMap({"s": p10.fresh(n)}))))
        sp[rng.randrange(len(sp)) if rng else n % len(sp)][1](n)
        return {"op": "map", "i": i + 1, **self.look()}

    def rest_spots(self, o):
        from opyenxes.model.XAttribute import XAttribute
        from opyenxes.model.XAttributeCollection import XAttributeCollection
        from opyenxes.model.XLog import XLog
        from opyenxes.model.XTrace import XTrace
        from opyenxes.extension.XExtensionManager import XExtensionManager
        if isinstance(o, XAttributeCollection):
            return [lambda n: o.add_to_collection(p10.fresh(n))]
        if isinstance(o, XAttribute) and hasattr(o, "set_value"):
            return [lambda n: o.set_value(p10.new_value(o, n))]
        if isinstance(o, XTrace):
            def app(n):
                e = p10.new_event(n)
                self.extra.append(e)
                return e
            from opyenxes.model.XEvent import XEvent
            mine = [e for e in self.el if isinstance(e, XEvent)]
            return [lambda n: o.append(app(n)), lambda n: o.append(mine[n % len(mine)] if mine else app(n)), lambda n: o.insert(0, app(n))]
        if isinstance(o, XLog):
            def apt(n):
                t = p10.new_trace(n)
                self.extra.append(t)
                return t
            return [lambda n: o.append(apt(n)), lambda n: o.get_global_trace_attributes().append(p10.fresh(n)), lambda n: o.get_global_event_attributes().append(p10.fresh(n)),
                    lambda n: o.get_classifiers().append(p10.new_classifier(n)), lambda n: o.get_extensions().add(XExtensionManager().get_by_index(n % 8)),
                    lambda n: o.set_features("f{}".format(n), "v"), lambda n: o.set_info(classifiers()[0], p10.Info())]
        return []

    def change_rest(self, i, n, rng):
        sp = self.rest_spots(self.el[i])
        if not sp:
            return None
        sp[rng.randrange(len(sp)) if rng else n % len(sp)](n)
        return {"op": "rest", "i": i + 1, **self.look()}

    def set_id(self, i, k):
        from opyenxes.id.XID import XID
        from opyenxes.model.XTrace import XTrace
        o = self.el[i]
        o.set_id(XID(uuid.UUID(int=1000 + k)))
        on = [i + 1] + [j + 1 for j, t in enumerate(self.el) if isinstance(t, XTrace) and any(e is o for e in t)]
        return {"op": "setid", "i": i + 1, "id": str(uuid.UUID(int=1000 + k)), "on": on, **self.look()}


def classifiers():
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    return [XEventNameClassifier()]


NAMES = {"event": ["F.event", "F.event2", "event", "event2"],
         "other": ["F.trace", "trace", "F.log", "log", "element", "attributable", "map2"],
         "coll": ["F.map", "map", "F.list", "list", "F.container", "container", "collection", "attribute", "F.literal", "literal", "F.discrete", "discrete", "F.continuous",
                  "continuous", "F.boolean", "boolean", "F.timestamp", "timestamp", "F.id", "id"]}
ALL = NAMES["event"] + ["F.event3"] + NAMES["other"] + NAMES["coll"]


def cases(ctx):
    rng = ctx.rng("p11")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P11"]), key=lambda h: (len(h), str(h)))
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "how": "hist", "ops": h, "seed": rng.randrange(10**9)})
    for i, a in enumerate(ALL):
        out.append({"id": "pairs-{:02d}".format(i), "how": "pairs", "kind": a})
    for i in range(ctx.n(60, 800)):
        out.append({"id": "long-{:04d}".format(i), "how": "long", "seed": rng.randrange(10**9), "n": rng.randrange(10, 40)})
    for i in range(ctx.n(6, 40)):
        out.append({"id": "ids-{:03d}".format(i), "how": "ids", "seed": rng.randrange(10**9), "n": ctx.n(300, 3000)})
    return out


def execute(case):
    how = case["how"]
    w = World()
    if how == "ids":
        return ids(case)
    evs = []
    if how == "pairs":
        for g in (0, 1, 2):
            for idn in (0, 1) if w.ks[case["kind"]][0] == "event" else (0,):
                for j, b in enumerate(ALL):
                    w = World()
                    one = [w.new(case["kind"], g, idn), w.new(b, 0 if g == 1 else g, 0), w.new(case["kind"], 0, 0)]
                    n = 0
                    while n < 10:
                        x = w.change_rest(0, n, None)
                        if x:
                            one.append(x)
                        if n < 3:
                            one.append(w.change_map(0, n, None))
                        n += 1
                        if not x and n >= 3 or n >= 8:
                            break
                    one.append(w.new(b, 0, 0))
                    one.append(w.new(case["kind"], 0, 0))
                    if j % 4 and g:
                        continue
                    evs += one
        return evs
    rng = random.Random(case["seed"])
    if how == "hist":
        for n, o in enumerate(case["ops"]):
            if o[0] == "new":
                evs.append(w.new(rng.choice(NAMES[o[1]]), o[2], o[3]))
            elif o[0] == "map":
                evs.append(w.change_map(o[1] - 1, n, rng))
            else:
                x = w.change_rest(o[1] - 1, n, rng)
                if x:
                    evs.append(x)
        return evs
    for n in range(case["n"]):
        r = rng.random()
        if r < .45 or not w.el:
            evs.append(w.new(rng.choice(ALL[:9] if rng.random() < .7 else ALL), rng.choice((0, 0, 1, 2)), rng.choice((0, 0, 1, 2, 3))))
            continue
        i = rng.randrange(len(w.el))
        if r < .55:
            evs.append(w.change_map(i, n, rng))
        elif r < .9:
            tr = [j for j, o in enumerate(w.el) if type(o).__name__ == "XTrace"]
            x = w.change_rest(rng.choice(tr) if tr and rng.random() < .7 else i, rng.randrange(50), rng)
            if x:
                evs.append(x)
        elif w.cls[i] == "event":
            evs.append(w.set_id(i, rng.randrange(0, 4)))
    return evs


def matrix(xs):
    def sign(n):
        return (n > 0) - (n < 0)
    return {"sign": [[sign(a.compare_to(b)) for b in xs] for a in xs],
            "ops": [[[a < b, a <= b, a > b, a >= b, a == b, a != b] for b in xs] for a in xs],
            "h": [str(hash(a)) for a in xs]}


def ids(case):
    from opyenxes.id.XID import XID
    from opyenxes.id.XIDFactory import XIDFactory
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["seed"])
    made = [XIDFactory().create_id() for _ in range(case["n"])] + [XID() for _ in range(case["n"])] + [XIDFactory.create_id() for _ in range(5)]
    made += [XFactory().create_event().get_id() for _ in range(case["n"])]
    us = {rng.getrandbits(128) for _ in range(200)} | {0, 1, 2**128 - 1, 0xabcdef << 100}
    given = [XID(uuid.UUID(int=u)) for u in sorted(us)]
    rows = []
    for x in made + given:
        t = str(x)
        mixed = "".join(c.upper() if rng.random() < .5 else c.lower() for c in t)
        rows.append([str(x.get_uuid())] + [str(XID.parse(s).get_uuid()) for s in (t, t.lower(), t.upper(), mixed)] + [str(x.clone().get_uuid())])
    for r, u in zip(rows[len(made):], sorted(us)):
        r.append(str(uuid.UUID(int=u)))
    few = [rng.choice((0, 1, 2, 2**64, 2**127, 2**128 - 1, rng.getrandbits(128), rng.getrandbits(128) % 2**20)) for _ in range(14)]
    xs = [XID(uuid.UUID(int=u)) for u in few]
    return [{"op": "text", "made": rows}, {"op": "order", "key": [str(u) for u in few], **matrix(xs)}]
