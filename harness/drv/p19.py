"""Time bounds: dates, events and other bounds registered in any order."""
import random

import gen
import snap
from drv import p12
from snap import NAIVE

TR = "Tr_P19"
CHUNKS = 2
MC = [{"module": "MC_P19", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
  Times = 3
INIT Init
NEXT Next
VIEW view
INVARIANTS Extremes
PROPERTIES Grow
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every history of registrations into two bounds (dates, events with and without a time, the other bounds, itself) up to the bound, realised with UTC, naive, "
        "mixed-zone and microsecond-near instants; seeded longer histories over up to 5 bounds with events that carry nothing, a list or another type under "
        "time:timestamp; after each step start, end and membership of every instant around, of all bounds")
ASSUMPTIONS = ["a date without zone counts as UTC", "an event whose time:timestamp is no timestamp has no time"]


def cases(ctx):
    rng = ctx.rng("p19")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P19"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    if len(hist) > ctx.n(1500, 15000):
        hist = rng.sample(hist, ctx.n(1500, 15000))
    names = sorted(p12.FLAVOURS)
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "flavour": names[i % len(names)], "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(200, 3000)):
        out.append({"id": "long-{:04d}".format(i), "flavour": "", "ops": [], "seed": rng.randrange(10**9)})
    return out


def shift(d, us):
    from datetime import timedelta
    try:
        return snap.fields(snap.to_datetime(d) + timedelta(microseconds=us))
    except OverflowError:
        return d


class World:
    def __init__(self, rng, probes):
        self.rng, self.probes, self.b = rng, probes, []

    def show(self):
        out = []
        for b in self.b:
            s, e = b.get_start_date(), b.get_end_date()
            ps = self.probes if len(self.probes) <= 12 else self.rng.sample(self.probes, 12)
            out.append({"start": [] if s is None else snap.fields(s), "end": [] if e is None else snap.fields(e),
                        "within": [[d, b.is_within(snap.to_datetime(d))] for d in ps]})
        return out

    def new(self):
        from opyenxes.info.XTimeBounds import XTimeBounds
        self.b.append(XTimeBounds())
        return {"op": "new", "changed": False, "shown": self.show()}

    def date(self, i, d):
        self.b[i].register(snap.to_datetime(d))
        return {"op": "date", "i": i + 1, "d": d, "changed": False, "shown": self.show()}

    def event(self, i, d, odd=0):
        from opyenxes.factory.XFactory import XFactory
        from opyenxes.model.XEvent import XEvent
        f = XFactory()
        e = f.create_event() if odd % 2 == 0 else XEvent()
        m = e.get_attributes()
        if d:
            m["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", snap.to_datetime(d))
        elif odd > 5:
            m["time:timestamp"] = snap.build_attr(snap.attr("time:timestamp", *((("literal", "s2017-01-01T00:00:00Z"), ("discrete", "i0"), ("list",), ("container",))[odd % 4])), f)
        elif odd > 3:
            m["time"] = f.create_attribute_timestamp("time", snap.to_datetime([2000, 1, 1, 0, 0, 0, 0, 0]))
            m["concept:name"] = f.create_attribute_literal("concept:name", "x")
        before = snap.digest(snap.snap_event(e))
        self.b[i].register(e)
        return {"op": "event", "i": i + 1, "d": d, "changed": snap.digest(snap.snap_event(e)) != before, "shown": self.show()}

    def bounds(self, i, j):
        self.b[i].register(self.b[j])
        return {"op": "bounds", "i": i + 1, "j": j + 1, "changed": False, "shown": self.show()}


def execute(case):
    rng = random.Random(case["seed"])
    if case["flavour"]:
        fl = p12.FLAVOURS[case["flavour"]]
        probes = fl + [shift(d, n) for d in fl for n in (-1, 1)]
        w = World(rng, probes)
        evs = [w.new(), w.new()]
        for op, i, t in case["ops"]:
            if op == "bounds":
                evs.append(w.bounds(i - 1, t - 1))
                continue
            d = fl[t - 1] if t else []
            if d and rng.random() < .3:
                d = p12.rezone(rng, d)
            evs.append(w.date(i - 1, d) if op == "date" else w.event(i - 1, d, rng.randrange(10)))
        return evs
    pool = []
    for _ in range(rng.randrange(2, 7)):
        d = gen.stamp(rng)
        d[0] = min(9997, max(3, d[0]))
        pool += [d, p12.rezone(rng, d), shift(d, rng.choice((1, -1, 1000, 10**6)))]
    w = World(rng, pool)
    evs = [w.new() for _ in range(rng.randrange(1, 6))]
    for _ in range(rng.randrange(3, 16)):
        i = rng.randrange(len(w.b))
        r = rng.random()
        if r < .4:
            evs.append(w.date(i, rng.choice(pool)))
        elif r < .8:
            evs.append(w.event(i, rng.choice(pool) if rng.random() < .7 else [], rng.randrange(10)))
        else:
            evs.append(w.bounds(i, rng.randrange(len(w.b))))
    return evs
