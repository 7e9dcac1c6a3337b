import random
from fractions import Fraction

import gen
import snap
from snap import NAIVE
from vlib import enc

TR = "Tr_P14"
CHUNKS = 2
MC = [{"module": "MC_P14", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS LastWins Discerns
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
# local zones as rules, so that no zone database is needed: with daylight saving, odd offsets, east and west
VARIANTS = {"utc": {"TZ": "UTC0"}, "west": {"TZ": "CLT4CLST,M9.1.0/0,M4.1.0/0"}, "east": {"TZ": "IST-5:30"}, "odd": {"TZ": "ODD11:45ODE10:45,M3.2.0,M11.1.0"}}
RULE = ("every history of creations and assignments (datetime or milliseconds) the machine admits, and seeded histories over all dates, zones, "
        "fractions, negative and extreme milliseconds, daylight-saving gaps; all views after each step, under four local time zones of the machine")
ASSUMPTIONS = ["milliseconds are whole numbers within the years 1 to 9999", "milliseconds reported as float: 2 microseconds tolerance between 1806 and 2134, 64 beyond"]

SPAN = (-62135596800000, 253402300799999)


def split(ms):
    day, r = divmod(ms, 86400000)
    return [day, r // 1000, r % 1000]


def join(m):
    return (m[0] * 86400 + m[1]) * 1000 + m[2]


def cases(ctx):
    rng = ctx.rng("p14")
    out = []
    vs = sorted(VARIANTS)
    hist = sorted(ctx.hist["MC_P14"], key=lambda h: (len(h), str(h)))
    for i, h in enumerate(hist):
        for v in vs if i % 4 == 0 or ctx.thorough else [vs[i % 4]]:
            out.append({"id": "hist-{:05d}-{}".format(i, v), "var": v, "ops": h})
    gaps = [[y, m, d, h, mi, 0, 0, z] for y in (2017, 2020) for m, d in ((3, 12), (3, 8), (4, 2), (4, 5), (9, 3), (9, 6), (11, 5), (11, 1)) for h in (0, 1, 2, 23) for mi in (0, 30) for z in (NAIVE, 0, -240)]
    for i, g in enumerate(gaps):
        out.append({"id": "gap-{:04d}".format(i), "var": vs[i % 4] if i % 2 else "west", "ops": [["new", g], ["clone", []], ["setms", split(join([snap.to_datetime(g[:7] + [0]).toordinal() - 719163, g[3] * 3600 + g[4] * 60, 0]))]]})
    for i in range(ctx.n(8, 60)):
        ops = [["setms" if j else "newms", split(rng.choice((rng.randrange(-10**4, 10**4), rng.randrange(-10**9, 10**9), rng.randrange(*SPAN))))] for j in range(120)]
        out.append({"id": "millis-{:05d}".format(i), "var": vs[i % 4], "ops": ops})
    for i in range(ctx.n(250, 4000)):
        ops = []
        for j in range(rng.randrange(1, 6)):
            r = rng.random()
            ms = rng.choice((rng.randrange(-10**4, 10**4), rng.randrange(-2**31, 2**31), rng.randrange(*SPAN), rng.randrange(10**12, 2 * 10**12), SPAN[0], SPAN[1], -1, 0, 2**31, 2**53 // 100))
            if r < .4 or j == 0 and r < .6:
                d = gen.stamp(rng)
                ops.append(["set" if j else "new", d[:1] + d[1:]])
                if not 2 <= d[0] <= 9998:
                    d[0] = 2000
            elif r < .7 or j == 0:
                ops.append(["setms" if j else "newms", split(ms)])
            elif r < .8:
                ops.append(["clone", []])
            elif r < .9:
                ops.append(["look", []])
            else:
                ops.append(["again", []])
        out.append({"id": "seeded-{:05d}".format(i), "var": vs[i % 4], "ops": ops})
    return out


def execute(case):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    a, evs = None, []
    for i, (op, v) in enumerate(case["ops"]):
        if op in ("new", "newms"):
            make = XFactory().create_attribute_timestamp if i % 2 == 0 else XAttributeTimestamp
            a = make("time:timestamp", snap.to_datetime(v) if op == "new" else join(v))
        elif op == "set":
            a.set_value(snap.to_datetime(v))
        elif op == "setms":
            a.set_value_millis(join(v))
        elif op == "clone":
            a = a.clone()
        elif op == "again":
            a.set_value_millis(a.get_value_millis())
        ms = a.get_value_millis()
        num = type(ms) in (int, float)
        us = round(Fraction(ms) * 1000) if num else 0
        day, r = divmod(us, 86400 * 10**6)
        evs.append({"op": op, "a": v, "value": snap.fields(a.get_value()), "num": num, "whole": num and Fraction(ms).denominator == 1, "millis": [day, r // 10**6, r % 10**6], "text": enc(str(a))})
    return evs
