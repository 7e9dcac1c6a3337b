"""Putting things into logs, traces, maps and collections and taking them out."""
import random
import uuid

import gen
import snap
from vlib import enc

TR = "Tr_P34"
CHUNKS = 8
MC = [{"module": "MC_P34", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Laws
PROPERTIES Elsewhere InOut
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("histories of changes to two traces, a log and a map up to the bound (sampled), and seeded longer ones over several logs, traces, events, attributes, lists, containers and maps, "
        "with equal events, repeated members, positions from either end and beyond, failing removals, replaced maps, changed identities, extensions, classifiers, globals and "
        "features; after each step everything that all of them hold, by object")
ASSUMPTIONS = ["the children a collection gives are not changed by the caller", "attribute keys and members are those of an attribute"]


def cases(ctx):
    rng = ctx.rng("p34")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P34"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    for i, h in enumerate(rng.sample(hist, min(len(hist), ctx.n(2500, 20000)))):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(350, 4000)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9), "n": rng.randrange(10, 45)})
    for i in range(ctx.n(6, 30)):
        out.append({"id": "large-{:03d}".format(i), "ops": None, "seed": rng.randrange(10**9), "n": 30, "large": True})
    return out


class World:
    def __init__(self, rng, small, large=False):
        from opyenxes.extension.XExtensionManager import XExtensionManager
        from opyenxes.factory.XFactory import XFactory
        from opyenxes.id.XID import XID
        self.rng, self.f, self.given = rng, XFactory(), {}
        f = self.f
        ne, nt, nl, na, nc = (3, 2, 1, 2, 0) if small else (300, 3, 2, 4, 1) if large else (rng.randrange(2, 8), rng.randrange(1, 4), rng.randrange(1, 3), rng.randrange(2, 6), rng.randrange(1, 3))
        self.obj = []           # member number - 1 -> object
        self.ids = [1, 1, 2] if small else [rng.randrange(1, 2 + ne * 2 // 3) for _ in range(ne)]
        us = {}
        for n in self.ids:
            us.setdefault(n, rng.getrandbits(128))
            self.obj.append(f.create_event(None, XID(uuid.UUID(int=us[n]))) if rng.random() < .5 else f.create_event())
            self.obj[-1].set_id(XID(uuid.UUID(int=us[n])))
        self.us = us
        self.seqs, self.maps, self.sets, self.tr, self.el = {}, {}, {}, [], {}

        def add(name, o):
            self.obj.append(o)
            self.el[name] = o
            if rng.random() < .7 and not large and not small:
                self.maps["m." + name] = o
            return len(self.obj)
        for i in range(nt):
            t = f.create_trace()
            k = add("t{}".format(i + 1), t)
            self.tr.append([k, "t{}".format(i + 1)])
            self.seqs["t{}".format(i + 1)] = t
        self.logs = []
        for i in range(nl):
            n = "l{}".format(i + 1)
            o = f.create_log()
            add(n, o)
            self.logs.append(o)
            self.seqs[n] = o
            if not small:
                self.seqs[n + ".cl"], self.seqs[n + ".gt"], self.seqs[n + ".ge"] = o.get_classifiers, o.get_global_trace_attributes, o.get_global_event_attributes
                self.sets[n + ".ex"] = o
                self.maps[n + ".ft"] = o
        self.att = []
        for i in range(na):
            t = gen.tree(rng, 0)
            while t["t"] in ("list", "container"):
                t = gen.tree(rng, 0)
            a = snap.build_attr(dict(t, m={}))
            self.att.append(add("a{}".format(i + 1), a))
        self.coll = []
        for i in range(nc):
            n = "c{}".format(i + 1)
            o = rng.choice((f.create_attribute_list, f.create_attribute_container))(n)
            self.att.append(add(n, o))
            self.seqs[n] = o
        self.cls = []
        if not small:
            from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
            from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
            for c in (XEventNameClassifier(), XEventAttributeClassifier("c", ["a", "b"]), XEventAttributeClassifier("c", ["a"])):
                self.obj.append(c)
                self.cls.append(len(self.obj))
        m = f.create_attribute_map()
        self.maps["m1"] = m
        for i in range(min(ne, 3)):
            self.maps["m.e{}".format(i + 1)] = self.obj[i]
        self.ext = XExtensionManager()
        self.nos = {id(o): i + 1 for i, o in enumerate(self.obj)}
        self.ft = ["xes.version", "openxes.version", "x", "nested"]

    def head(self):
        return {"seqs": sorted(self.seqs), "maps": sorted(self.maps), "sets": sorted(self.sets), "who": list(self.first), "tr": self.tr}

    def no(self, o):
        return self.nos.get(id(o), 0)

    def the(self, slot):
        """The real sequence or map of a slot."""
        o = self.seqs[slot] if slot in self.seqs else self.maps[slot]
        if slot in self.maps and not slot == "m1":
            return o.get_attributes()
        return o() if callable(o) else o

    def held(self, slot):
        if slot[0] == "c":
            return list(self.the(slot).get_collection())
        return list(iter(self.the(slot)))

    def look(self):
        o = {"seq": {}, "rev": {}, "len": {}, "map": {}, "set": {}, "void": {}}
        for s in self.seqs:
            h = self.held(s)
            o["seq"][s] = [self.no(x) for x in h]
            q = h if s[0] == "c" else self.the(s)
            o["rev"][s] = [self.no(q[i]) for i in range(len(q) - 1, -1, -1)] if self.rng.random() < .5 else [self.no(x) for x in reversed(q)]
            o["len"][s] = len(q)
        for s in self.maps:
            if s.endswith(".ft"):
                m = {k: v for k, v in self.maps[s].get_features().items()}
                o["map"][s] = {enc(k): self.ft.index(v) if v in self.ft else -1 for k, v in m.items()}
                o["void"][s] = int(not m)
                continue
            m = self.the(s)
            o["map"][s] = {enc(k): self.no(m[k]) for k in m.keys()}
            o["void"][s] = int(bool(m.is_empty()) if s == "m1" or self.rng.random() < .3 else not self.maps[s].has_attributes())
        for s in self.sets:
            o["set"][s] = sorted(x.get_prefix() for x in self.sets[s].get_extensions())
        return o

    def do(self, e):
        op, rng = e["op"], self.rng
        e["r"] = []
        x = self.obj[e["x"] - 1] if isinstance(e.get("x"), int) and op not in ("add", "discard") and not e.get("slot", "").endswith(".ft") else None
        if op == "identity":
            from opyenxes.id.XID import XID
            self.us.setdefault(e["n"], rng.getrandbits(128))
            x.set_id(XID(uuid.UUID(int=self.us[e["n"]])))
        elif op in ("add", "discard"):
            getattr(self.sets[e["slot"]].get_extensions(), op)(self.ext.get_by_prefix(e["x"]))
        elif e["slot"].endswith(".ft"):
            self.maps[e["slot"]].set_features(e["k"], self.ft[e["x"]])
        elif e["slot"] in self.maps:
            self.on_map(e, op, x)
        else:
            self.on_seq(e, op, x)
        e["r"] = [str(y) for y in e["r"]]
        if "m" in e:
            e["m"] = {enc(k): v for k, v in e["m"].items()}
        if "k" in e:
            e["k"] = enc(e["k"])
        e.update(self.look())
        return e

    def on_map(self, e, op, x):
        m, k, rng = self.the(e["slot"]), e.get("k"), self.rng
        if e["slot"] in self.given and rng.random() < .75:     # the map the element was given
            m = self.given[e["slot"]]
        more = {k: self.obj[n - 1] for k, n in e.get("m", {}).items()}
        try:
            if op == "put":
                m[k] = x
            elif op == "drop":
                del m[k]
            elif op == "take":
                e["r"] = [self.no(m.pop(k))]
            elif op == "update":
                m.update(more)
            elif op == "empty":
                m.clear()
            elif op == "replace":
                n = self.f.create_attribute_map()
                if rng.random() < .5:
                    n = type(n)(more)
                else:
                    n.update(more)
                if e["slot"] == "m1":
                    self.maps["m1"] = n
                else:
                    self.maps[e["slot"]].set_attributes(n)
                    self.given[e["slot"]] = n
                m.clear() if rng.random() < .5 else None
            elif op == "lookup":
                y = m.get(k)
                e["r"] = ["N" if y is None else self.no(y)]
            elif op == "default":
                e["r"] = [self.no(m.setdefault(k, x))]
        except (KeyError, IndexError):
            e["r"] = ["error"]

    def on_seq(self, e, op, x):
        q, rng = self.the(e["slot"]), self.rng
        xs = [self.obj[n - 1] for n in e.get("xs", [])]
        try:
            if e["slot"][0] == "c":
                for y in xs or [x]:
                    q.add_to_collection(y)
            elif op == "append":
                q.append(x)
            elif op == "insert":
                q.insert(e["i"], x)
            elif op == "extend":
                q.extend(xs)
            elif op == "pop":
                e["r"] = [self.no(q.pop(e["i"]))]
            elif op == "del":
                del q[e["i"]]
            elif op == "set":
                q[e["i"]] = x
            elif op == "remove":
                q.remove(x)
            elif op in ("reverse", "clear"):
                getattr(q, op)()
            elif op == "sort":
                key = e["key"]
                q.sort(key=lambda o: key[self.no(o) - 1])
            elif op == "get":
                e["r"] = [self.no(q[e["i"]])]
            elif op == "slice":
                e["r"] = [self.no(y) for y in q[e["i"]:e["j"]]]
            elif op == "count":
                e["r"] = [q.count(x)]
            elif op == "index":
                e["r"] = [q.index(x)]
            elif op == "has":
                e["r"] = [int(x in q)]
            elif op == "equal":
                o = self.the(e["other"])
                e["r"] = [int(q == o)] if rng.random() < .5 else [int(not q != o)]
        except (IndexError, ValueError):
            e["r"] = ["error"]


KEYS = ("a", "b", "concept:name", "time:timestamp", "", "org:role", "A", "\u00e4")


def step(w):
    rng = w.rng
    slot = rng.choice(sorted(w.seqs) + [s for s in sorted(w.seqs) if s[0] == "t"] * 2 + [s for s in sorted(w.maps)] + sorted(w.sets) + ["id"])
    if slot == "id":
        return {"op": "identity", "x": rng.randrange(1, len(w.ids) + 1), "n": rng.randrange(1, len(w.ids) + 1)}
    if slot in w.sets:
        return {"op": rng.choice(("add", "add", "discard")), "slot": slot, "x": rng.choice(("concept", "time", "org", "cost"))}
    if slot.endswith(".ft"):
        return {"op": "put", "slot": slot, "k": rng.choice(w.ft), "x": rng.randrange(len(w.ft))}
    if slot in w.maps:
        op = rng.choice(("put", "put", "put", "put", "replace", "drop", "take", "update", "empty", "replace", "lookup", "default"))
        e = {"op": op, "slot": slot}
        a = [n for n in w.att if w.el.get(slot[2:]) is not w.obj[n - 1]] or w.att
        if op in ("update", "replace"):
            e["m"] = {rng.choice(KEYS): rng.choice(a) for _ in range(rng.choice((0, 0, 1, 2, 3)))}
        elif op != "empty":
            e["k"] = rng.choice(KEYS)
            if op in ("put", "default"):
                e["x"] = rng.choice(a)
        return e
    n = len(w.held(slot))
    if slot[0] == "c":
        a = [k for k in w.att if not hasattr(w.obj[k - 1], "get_collection")]
        return {"op": "append", "slot": slot, "x": rng.choice(a)} if rng.random() < .8 else {"op": "extend", "slot": slot, "xs": [rng.choice(a) for _ in range(3)]}
    pool = [k for k, _ in w.tr] if slot in ("l1", "l2") else w.cls if slot.endswith(".cl") else w.att if "." in slot else list(range(1, len(w.ids) + 1))
    ops = ("append", "append", "append", "insert", "insert", "insert", "extend", "pop", "del", "set", "reverse", "clear", "sort", "get", "slice")
    if "." not in slot:
        ops += ("remove", "remove", "count", "index", "has", "equal", "equal")
    op = rng.choice(ops)
    e = {"op": op, "slot": slot}
    if op in ("append", "insert", "set", "remove", "count", "index", "has"):
        e["x"] = rng.choice(pool)
    if op == "extend":
        e["xs"] = [rng.choice(pool) for _ in range(rng.choice((0, 1, 2, 3, 50 if len(pool) > 100 else 2)))]
    if op in ("insert", "pop", "del", "set", "get", "slice"):
        e["i"] = rng.choice((0, -1, n, n // 2, -n, n + 1, -n - 1, rng.randrange(-n - 1, n + 2)))
    if op == "slice":
        e["j"] = rng.choice((0, -1, n, n // 2, n + 3, rng.randrange(-n - 1, n + 2)))
    if op == "sort":
        e["key"] = [rng.randrange(4) for _ in w.obj]
    if op == "equal":
        e["other"] = rng.choice([s for s in w.seqs if s[0] == slot[0] and "." not in s])
    return e


def execute(case):
    rng = random.Random(case["seed"])
    w = World(rng, case["ops"] is not None, case.get("large"))
    w.first = list(w.ids)
    evs = [dict({"op": "begin"}, **w.look())]
    if case["ops"] is not None:
        real = {1: 1, 2: 2, 3: 3, 11: w.tr[0][0], 12: w.tr[1][0], 21: w.att[0], 22: w.att[1]}
        for h in case["ops"]:
            e = dict(h)
            if "x" in e:
                e["x"] = real[e["x"]]
            if e["op"] == "sort":
                e["key"] = [rng.randrange(3) for _ in w.obj]
            evs.append(w.do(e))
    else:
        if case.get("large"):
            evs.append(w.do({"op": "extend", "slot": "t1", "xs": list(range(1, 301))}))
            for x in (1, 300, 1, 1):
                evs.append(w.do({"op": "append", "slot": "t1", "x": x}))
        for _ in range(case["n"]):
            evs.append(w.do(step(w)))
    return dict(w.head(), ev=evs)
