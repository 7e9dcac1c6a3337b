import random

import snap
from snap import NAIVE

TR = "Tr_P12"
CHUNKS = 2
MC = [{"module": "MC_P12", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxLen = %d
  Times = 3
INIT Init
NEXT Next
INVARIANTS Chronological
PROPERTIES Where OthersKept
CHECK_DEADLOCK FALSE
""" % (6 if tier == "thorough" else 5)}]
RULE = ("every history of insertions (and appends that unsort the trace) of up to the bound over three instants and no timestamp, each replayed with "
        "naive, UTC and mixed-zone datetimes whose instants differ by days down to microseconds and whose wall clocks contradict their instants; plus seeded traces, some of thousands of events")
ASSUMPTIONS = ["a timestamp without zone counts as UTC"]

# three increasing instants per flavour, written in several zones
FLAVOURS = {
    "utc": [[2017, 1, 1, 0, 0, 0, 0, 0], [2017, 1, 2, 0, 0, 0, 0, 0], [2017, 1, 3, 0, 0, 0, 0, 0]],
    "micro": [[2017, 1, 1, 0, 0, 0, 1, 0], [2017, 1, 1, 0, 0, 0, 2, 0], [2017, 1, 1, 0, 0, 0, 3, 0]],
    "naive": [[1969, 12, 31, 23, 59, 59, 999999, NAIVE], [1970, 1, 1, 0, 0, 0, 0, NAIVE], [1970, 1, 1, 0, 0, 0, 999, NAIVE]],
    "zones": [[2017, 6, 2, 1, 0, 0, 0, 840], [2017, 6, 1, 12, 0, 0, 0, 0], [2017, 6, 1, 5, 0, 0, 0, -720]],
    "same": [[2017, 6, 1, 12, 0, 0, 0, 60], [2017, 6, 1, 12, 0, 0, 0, 0], [2017, 6, 1, 12, 0, 0, 0, -60]],
    "mixed": [[2017, 6, 1, 12, 0, 0, 0, 60], [2017, 6, 1, 12, 0, 0, 0, NAIVE], [2017, 6, 1, 11, 0, 0, 1, -60]],
    "mixed2": [[1969, 12, 31, 23, 59, 59, 999999, NAIVE], [1970, 1, 1, 0, 0, 0, 0, 0], [1970, 1, 1, 0, 0, 0, 1, NAIVE]],
    "far": [[1, 1, 2, 0, 0, 0, 0, 0], [1, 1, 2, 0, 0, 0, 0, -1], [9999, 12, 30, 0, 0, 0, 0, 0]],
}
ZONES = [0, 60, -210, 330, 840, -720, 1439, -1439]


def cases(ctx):
    rng = ctx.rng("p12")
    out = []
    names = sorted(FLAVOURS)
    for i, h in enumerate(sorted(ctx.hist["MC_P12"])):
        ops = [["append" if k >= 100 else "insert", k % 100] for k in h]
        for f in (names if ctx.thorough else [names[i % len(names)]]):
            out.append({"id": "hist-{}-{}".format("_".join(map(str, h)), f), "flavour": f, "ops": ops, "rezone": rng.randrange(10**6) if f in ("zones", "mixed") else 0})
    for i in range(ctx.n(60, 600)):
        n = rng.randrange(5, 60)
        mode = i % 3
        base = [2000 + rng.randrange(20), 3, 5, 12, 30, 0]
        off = NAIVE if i % 4 == 0 else None
        ops = []
        for _ in range(n):
            if rng.random() < (0, .1, .3)[mode]:
                d = []
            else:
                d = [base[0], rng.choice((1, 3, 12)), 5, rng.randrange(24), 30, rng.randrange(3), rng.choice((0, 1, 999, 1000)), off or rng.choice(ZONES)]
            ops.append(["append" if rng.random() < (0, .2, .2)[mode] else "insert", d])
        out.append({"id": "long-{:04d}".format(i), "flavour": "", "ops": ops, "rezone": 0, "again": i % 4 == 3})
    for i in range(ctx.n(3, 12)):       # very long traces
        n = rng.randrange(600, 900)

        def date(m):
            return [2010, m, 5, rng.randrange(24), rng.randrange(60), 0, 0, rng.choice(ZONES)]
        fill = [date(2 + j * 10 // n) for j in range(n)]
        for j in ((), (5,), (n // 3, n - 110))[i % 3]:
            fill[j] = []
        out.append({"id": "vast-{:04d}".format(i), "flavour": "", "ops": [["insert", date(rng.randrange(1, 13))] for _ in range(12)], "rezone": 0, "fill": fill})
    return out


def rezone(rng, d):
    """The same instant written in another zone."""
    from datetime import timedelta, timezone
    t = snap.to_datetime(d)
    if t.tzinfo is None:
        t = t.replace(tzinfo=timezone.utc)
    if rng.random() < .2:
        return snap.fields(t.astimezone(timezone.utc))[:7] + [NAIVE]
    return snap.fields(t.astimezone(timezone(timedelta(minutes=rng.choice(ZONES)))))


def execute(case):
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["rezone"])
    f = XFactory()
    trace = f.create_trace()
    events, evs, dates = [], [], []
    for d in case.get("fill", ()):
        e = f.create_event()
        if d:
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", snap.to_datetime(d))
        events.append(e)
        dates.append(d)
        trace.append(e)
    if events:
        evs.append({"op": "fill", "ds": dates[:]})
    for n, (op, k) in enumerate(case["ops"], 1):
        d = k if isinstance(k, list) else [] if k == 0 else FLAVOURS[case["flavour"]][k - 1]
        if case["rezone"] and d:
            d = rezone(rng, d)
        if case.get("again") and n > 1 and rng.random() < .25:      # an event that is there already
            n = rng.randrange(1, len(events) + 1)
            e, d = events[n - 1], dates[n - 1]
            again = True
        else:
            e, again, n = f.create_event(), False, len(events) + 1
            if events and rng.random() < .15:                        # another event of the same identity
                e = f.create_event(None, rng.choice(events).get_id())
        e.get_attributes()["concept:name"] = f.create_attribute_literal("concept:name", str(n))
        if d:
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", snap.to_datetime(d))
        if not again:
            events.append(e)
            dates.append(d)
        before = snap.digest([snap.snap_event(x) for x in events])
        ret = trace.insert_ordered(e) if op == "insert" else trace.append(e)
        order = []
        for x in trace:
            at = [i for i, y in enumerate(events, 1) if y is x]
            order.append(at[0] if at else 0)
        evs.append({"op": op, "n": n, "d": d, "ret": ret if type(ret) is int else -99, "order": order,
                    "changed": snap.digest([snap.snap_event(x) for x in events]) != before})
    return evs
