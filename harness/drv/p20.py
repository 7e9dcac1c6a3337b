"""Attribute registries, alone and in log summaries."""
import random
from fractions import Fraction

import gen
import snap
from snap import attr
from vlib import enc

TR = "Tr_P20"
CHUNKS = 2
MC = [{"module": "MC_P20", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Counts First
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("every history of registrations in two registries over three keys, two types and two extensions up to the bound; seeded histories over all types, extensions and "
        "keys with up to 300 registrations; summaries of seeded logs with nested attributes four deep; after each step prototypes, keys, both frequencies by key and by "
        "attribute, and every query by type, by extension and without extension")
ASSUMPTIONS = ["collections are built with their children in the attribute map as well; what is only in the collection is not counted as nested",
               "frequencies of keys never registered are unspecified", "nested attributes: any attribute of the key seen may be the first"]
KEYS = gen.KEYS + [" a", "a ", "A", "concept:name ", "a\n"]
QUERY = gen.STD + ["custom"]


def cases(ctx):
    rng = ctx.rng("p20")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P20"]), key=str)
    if len(hist) > ctx.n(1200, 20000):
        hist = rng.sample(hist, ctx.n(1200, 20000))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "how": "hist", "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(120, 1500)):
        out.append({"id": "long-{:04d}".format(i), "how": "long", "seed": rng.randrange(10**9)})
    for i in range(ctx.n(160, 2500)):
        out.append({"id": "log-{:04d}".format(i), "how": "log", "seed": rng.randrange(10**9), "depth": rng.randrange(0, 5)})
    return out


def ext_name(x):
    return "N" if x is None else x.get_prefix()


def brief(a):
    return [enc(a.get_key()), snap.typ(a), ext_name(a.get_extension()), [brief(c) for c in a.get_attributes().values()]]


def other_of(k):
    """An attribute with the key and nothing else in common."""
    from opyenxes.model.XAttributeLiteral import XAttributeLiteral
    return XAttributeLiteral("".join(k), "something else", None)


def show(info, custom):
    from opyenxes.model import XAttributeBoolean, XAttributeContainer, XAttributeContinuous, XAttributeDiscrete, XAttributeID, XAttributeList, XAttributeLiteral, XAttributeTimestamp
    mods = {"boolean": XAttributeBoolean, "container": XAttributeContainer, "continuous": XAttributeContinuous, "discrete": XAttributeDiscrete, "id": XAttributeID,
            "list": XAttributeList, "literal": XAttributeLiteral, "timestamp": XAttributeTimestamp}

    def p(q):
        return [[enc(a.get_key()), snap.typ(a), ext_name(a.get_extension()), val(a)] for a in q]

    def val(a):
        t = snap.typ(a)
        return "" if t in ("list", "container", "id") else str(snap.fields(a.get_value())) if t == "timestamp" else snap.tagged(t, a.get_value())

    def frac(f, total):
        x = Fraction(f).limit_denominator(max(1, total))
        return [x.numerator, x.denominator] if float(x) == float(f) else [-1, 1]
    protos = list(info.get_attributes())
    total = sum(info.get_frequency(k) for k in info.get_attribute_keys())
    r = {"protos": p(protos), "keys": [enc(k) for k in info.get_attribute_keys()], "freq": [], "rel": [], "types": [], "exts": [],
         "without": [p(info.get_attributes_without_extension()), [enc(k) for k in info.get_keys_without_extension()]]}
    for a in protos:
        k = a.get_key()
        other = other_of(k)
        r["freq"].append([enc(k), info.get_frequency(k), info.get_frequency(a), info.get_frequency(other)])
        r["rel"].append([enc(k)] + frac(info.get_relative_frequency(k), total) + frac(info.get_relative_frequency(a), total) + frac(info.get_relative_frequency(other), total))
    for t in sorted(mods):
        c = getattr(mods[t], mods[t].__name__.split(".")[-1])
        r["types"].append([t, p(info.get_attributes_for_type(c)), [enc(k) for k in info.get_keys_for_type(c)]])
    for x in QUERY + ["N"]:
        e = custom if x == "custom" else snap.extension_of(x)
        r["exts"].append([x, p(info.get_attributes_for_extension(e)), [enc(k) for k in info.get_keys_for_extension(e)]])
    return r


def custom_extension():
    from urllib.parse import urlparse
    from opyenxes.extension.XExtension import XExtension
    return XExtension("Custom", "custom", urlparse("http://localhost/custom.xesext"))


def tree(rng, depth, keys, custom, x=None):
    """Keys of nested attributes differ among siblings, so that linking children loses none."""
    a = gen.tree(rng, 0, k=rng.choice(keys))
    a["x"] = rng.choice(["N", "N", a["x"]] + gen.STD)
    if depth > 0:
        kids = []
        for k in rng.sample(keys, min(len(keys), rng.choice((0, 0, 1, 2, 3, 3, 30) if depth > 1 else (0, 0, 1, 2, 3)))):
            c = tree(rng, depth - 1, keys, custom)
            c["k"] = enc(k)
            kids.append(c)
        if a["t"] in ("list", "container"):
            a["c"] = kids
        else:
            a["m"] = {c["k"]: c for c in kids}
    return a


def execute(case):
    from opyenxes.info.XAttributeInfo import XAttributeInfo
    rng = random.Random(case["seed"])
    custom = custom_extension()
    evs = []
    if case["how"] != "log":
        infos = [XAttributeInfo(), XAttributeInfo()]
        evs += [{"op": "new", "changed": False, "shown": [show(infos[0], custom)]}, {"op": "new", "changed": False, "shown": [show(i, custom) for i in infos]}]
        if case["how"] == "hist":
            ops = []
            for i, k, t, x in case["ops"]:
                v, d = gen.value(rng, t)
                ops.append((i - 1, attr(k, t, v, d, x)))
            every = 1
        else:
            keys = rng.sample(KEYS, rng.choice((1, 2, 3, 4, 5, 6, 7, 25)))
            n = rng.choice((5, 20, 60, 300))
            ops = [(rng.randrange(2), tree(rng, rng.randrange(0, 3), keys, custom)) for _ in range(n)]
            every = max(1, n // 6)
        pend = 0
        last = [None, None]
        for n, (i, r) in enumerate(ops):
            a = last[i] if last[i] is not None and rng.random() < .1 else snap.build_attr(r, link=True)
            if rng.random() < .1:
                a.set_extension(custom) if hasattr(a, "set_extension") else None
            last[i] = a
            before = snap.digest(brief(a))
            infos[i].register(a)
            ev = {"op": "reg", "i": i + 1, "a": brief(a)[:3] + [[]], "changed": snap.digest(brief(a)) != before, "shown": []}
            pend += 1
            if pend >= every or n == len(ops) - 1:
                ev["shown"] = [show(x, custom) for x in infos]
                pend = 0
            evs.append(ev)
        return evs
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    keys = rng.sample(KEYS, rng.choice((1, 2, 3, 4, 5, 6, 7, 25)))
    f = XFactory()
    log = f.create_log()

    def fill(o, n):
        for k in rng.sample(keys, min(len(keys), rng.randrange(0, n + 1))):
            r = tree(rng, case["depth"], keys, custom)
            r["k"] = enc(k)
            a = snap.build_attr(r, link=True)
            o.get_attributes()[k] = a
        return o
    fill(log, 3)
    for a in [tree(rng, 2, keys, custom) for _ in range(2)]:
        log.get_global_trace_attributes().append(snap.build_attr(a))
        log.get_global_event_attributes().append(snap.build_attr(a))
    for _ in range(rng.randrange(0, 4)):
        t = fill(f.create_trace(), 3)
        log.append(t)
        for _ in range(rng.randrange(0, 4)):
            t.append(fill(f.create_event(), 4))
    top = [brief(a) for a in log.get_attributes().values()]
    traces = [[brief(a) for a in t.get_attributes().values()] for t in log]
    events = [[brief(a) for a in e.get_attributes().values()] for t in log for e in t]
    before = snap.digest(snap.snap_log(log))
    info = XLogInfo.create(log) if rng.random() < .7 else XLogInfoFactory.create_log_info(log)
    return [{"op": "summary", "log": top, "traces": traces, "events": events, "changed": snap.digest(snap.snap_log(log)) != before,
             "shown": {"log": show(info.get_log_attribute_info(), custom), "trace": show(info.get_trace_attribute_info(), custom),
                       "event": show(info.get_event_attribute_info(), custom), "meta": show(info.get_meta_attribute_info(), custom)}}]
