"""Sets of event classes: registrations, harmonizations, lookups."""
import random

import snap
from drv import p16
from drv.p16 import cp

TR = "Tr_P17"
CHUNKS = 2
MC = [{"module": "MC_P17", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS SizesAddUp RanksCover
PROPERTIES Isolated HarmKeeps
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every history of registrations, harmonizations and sizes set explicitly of two sets over three identities (prefixes of one another) up to the bound, each realised with texts, events, traces "
        "and logs; seeded histories over several sets of different classifiers sharing events, some of 300 classes and of sizes beyond 1000; after each step all classes, sizes, indices, and every lookup, of all sets")
ASSUMPTIONS = ["before harmonizing the indices may be any permutation"]
MC_IDS = {(1,): "b", (2,): "c", (1, 1): "bb"}


def cases(ctx):
    rng = ctx.rng("p17")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P17"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    if len(hist) > ctx.n(1200, 12000):
        hist = rng.sample(hist, ctx.n(1200, 12000))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "how": "hist", "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(120, 1500)):
        out.append({"id": "long-{:04d}".format(i), "how": "long", "seed": rng.randrange(10**9)})
    for i in range(ctx.n(40, 400)):
        out.append({"id": "wide-{:04d}".format(i), "how": "wide", "seed": rng.randrange(10**9)})
    for i in range(ctx.n(1, 6)):
        out.append({"id": "vast-{:04d}".format(i), "how": "vast", "seed": rng.randrange(10**9)})
    return out


def probes(n):
    return list(range(-1, n + 1)) if n <= 60 else [-1, 0, 1, n // 2, 255, 256, 257, n - 2, n - 1, n]


class World:
    def __init__(self, rng, pool, ids):
        self.rng, self.pool, self.ids, self.sets, self.keys = rng, pool, ids, [], []

    def event(self, e):
        return [[cp(k), cp(str(a))] for k, a in e.get_attributes().items()]

    def show(self):
        def c(x):
            return [] if x is None else [[cp(x.get_id()), x.get_index(), x.size()]]
        out = []
        for s, ks in zip(self.sets, self.keys):
            out.append({"keys": [cp(k) for k in ks], "len": len(s), "classes": [c(x)[0] for x in s.get_classes()],
                        "byix": [[i, c(s.get_by_index(i))] for i in probes(len(s))], "byid": [[cp(i), c(s.get_by_identity(i))] for i in self.ids],
                        "of": [[self.event(e), c(s.get_class_of(e))] for e in self.pool[:6]]})
        return out

    def state(self):
        return snap.digest([snap.snap_event(e) for e in self.pool])

    def new(self, c, ks):
        from opyenxes.classification.XEventClasses import XEventClasses
        self.sets.append(XEventClasses(c))
        self.keys.append(ks)
        return {"op": "new", "changed": False, "shown": self.show()}

    def element(self, kind, es):
        """One element of the kind that holds exactly these events."""
        from opyenxes.factory.XFactory import XFactory
        f = XFactory()
        if kind == "event":
            return es[0]
        if kind == "trace":
            t = f.create_trace()
            for e in es:
                t.append(e)
            return t
        log = f.create_log()
        rest = list(es)
        while True:
            n = self.rng.randrange(0, len(rest) + 1)
            log.append(self.element("trace", rest[:n]))
            rest = rest[n:]
            if not rest:
                break
        if self.rng.random() < .4:
            log.append(f.create_trace())
        return log

    def reg(self, i, what):
        """what: one text, or a list of events."""
        before = self.state()
        if isinstance(what, str):
            self.sets[i].register(what)
            w = [["id", cp(what)]]
        else:
            kind = self.rng.choice(("event", "trace", "log") if len(what) == 1 else ("trace", "log"))
            self.sets[i].register(self.element(kind, what))
            w = [["ev", self.event(e)] for e in what]
        return {"op": "reg", "i": i + 1, "what": w, "keys": [cp(k) for k in self.keys[i]], "changed": self.state() != before, "shown": self.show()}

    def harm(self, i):
        self.sets[i].harmonize_indices()
        return {"op": "harm", "i": i + 1, "changed": False, "shown": self.show()}

    def size(self, i, ident, n):
        by = self.rng.randrange(3)
        s = self.sets[i]
        c = s.get_by_identity(ident) if by == 0 else [x for x in s.get_classes() if x.get_id() == ident][0]
        c = s.get_by_index(c.get_index()) if by == 2 else c
        if n == c.size() + 1 and self.rng.random() < .5:
            c.increment_size()
        else:
            c.set_size(n)
        return {"op": "size", "i": i + 1, "id": cp(ident), "n": n, "changed": False, "shown": self.show()}

    def derive(self, c, ks, es):
        from opyenxes.classification.XEventClasses import XEventClasses
        before = self.state()
        self.sets.append(XEventClasses.derive_event_classes(c, self.element("log", es)))
        self.keys.append(ks)
        return {"op": "derive", "what": [["ev", self.event(e)] for e in es], "keys": [cp(k) for k in ks], "changed": self.state() != before, "shown": self.show()}


def execute(case):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["seed"])
    f = XFactory()
    if case["how"] == "hist":
        ks = rng.choice((["concept:name"], ["k", "concept:name"], ["k", "concept:name", "l"]))
        pool = []
        for i in sorted(MC_IDS.values()):
            e = f.create_event()
            e.get_attributes()["concept:name"] = f.create_attribute_literal("concept:name", i)
            pool.append(e)
        pre = {1: "", 2: "&&", 3: "&&"}[len(ks)]
        post = "&&" if len(ks) == 3 else ""
        by = {k: (pre + v + post, pool[sorted(MC_IDS.values()).index(v)]) for k, v in MC_IDS.items()}
        w = World(rng, pool, [x[0] for x in by.values()])
        evs = [w.new(XEventAttributeClassifier("n", ks), ks) for _ in range(2)]
        for op in case["ops"]:
            if len(op) == 1:
                evs.append(w.harm(op[0] - 1))
                continue
            if len(op) == 3:
                evs.append(w.size(op[0] - 1, by[tuple(op[1])][0], op[2]))
                continue
            g = [by[tuple(x)] for x in op[1]]
            evs.append(w.reg(op[0] - 1, g[0][0] if len(g) == 1 and rng.random() < .4 else [x[1] for x in g]))
        return evs
    if case["how"] == "vast":     # hundreds of classes, some of them with more than a thousand events
        pool = []
        for i in range(300):
            e = f.create_event()
            e.get_attributes()["k"] = f.create_attribute_literal("k", str(i * 7919 % 100000))
            pool.append(e)
        rng.shuffle(pool)
        w = World(rng, pool, [])
        c = XEventAttributeClassifier("n", ["k"])
        many = [pool[i % 2] for i in range(2300)]
        return [w.new(c, ["k"]), w.reg(0, pool), w.reg(0, many), w.harm(0)]
    if case["how"] == "wide":     # many classes
        ids = sorted({rng.choice(("a", "A", "\u00e4", "9", "10", "\U0001f600", "\uffff", " ", "z")) * rng.randrange(3) + str(rng.randrange(120)) for _ in range(rng.randrange(8, 45))})
        rng.shuffle(ids)
        pool = []
        for i in ids:
            e = f.create_event()
            e.get_attributes()["k"] = f.create_attribute_literal("k", i)
            pool.append(e)
        w = World(rng, pool, ids[:8])
        c = XEventAttributeClassifier("n", ["k"])
        many = [rng.choice(pool) for _ in range(len(pool))] + pool
        evs = [w.derive(c, ["k"], many)] if rng.random() < .5 else [w.new(c, ["k"]), w.reg(0, many), w.harm(0)]
        evs += [w.reg(0, [rng.choice(pool) for _ in range(30)]), w.harm(0)]
        return evs
    keys = rng.sample(p16.KEYS, rng.randrange(1, 4)) + ["concept:name"]
    attrs = {k: [p16.new_attr(rng, f, k) for _ in range(3)] for k in keys}
    pool = []
    for _ in range(rng.randrange(3, 9)):
        e = f.create_event()
        for k in keys:
            if rng.random() < .8:
                e.get_attributes()[k] = rng.choice(attrs[k]).clone()
        pool.append(e)
    w = World(rng, pool, [])
    evs = []
    for n in range(rng.randrange(4, 14)):
        r = rng.random()
        i = rng.randrange(len(w.sets)) if w.sets else 0
        if not w.sets or r < .1 and len(w.sets) < 4:
            c, _, ks = p16.classifier(rng, keys)
            w.ids += [c.get_class_identity(rng.choice(pool)), rng.choice(("", "&&", "x", "zz", "\uffff", "\U0001f600"))]
            es = [rng.choice(pool) for _ in range(rng.randrange(0, 6))]
            evs.append(w.new(c, ks) if r < .05 or rng.random() < .5 else w.derive(c, ks, es))
        elif r < .17:     # an event changes after it was registered
            k = rng.choice(keys)
            rng.choice(pool).get_attributes()[k] = p16.new_attr(rng, f, k)
            evs.append({"op": "look", "changed": False, "shown": w.show()})
        elif r < .3:
            evs.append(w.harm(i))
        elif r < .36 and len(w.sets[i]):
            c = rng.choice(sorted(w.sets[i].get_classes(), key=lambda x: x.get_id()))
            evs.append(w.size(i, c.get_id(), rng.choice((0, 1, 2, 40, c.size() + 1))))
        elif r < .45:
            evs.append(w.reg(i, rng.choice(w.ids)))
        else:
            evs.append(w.reg(i, [rng.choice(pool) for _ in range(rng.choice((0, 1, 1, 2, 5)))]))
    return evs
