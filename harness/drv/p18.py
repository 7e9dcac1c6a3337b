"""Summaries of logs."""
import random

import gen
import snap
from drv import p12, p16, p19
from drv.p16 import cp
from vlib import enc

TR = "Tr_P18"
CHUNKS = 3
MC = [{"module": "MC_P18", "workers": 3, "cfg": lambda tier: """CONSTANTS
  MaxTraces = %d
  MaxEvents = %d
INIT Init
NEXT Next
INVARIANTS OnePass OfTraces
CHECK_DEADLOCK FALSE
""" % ((3, 3) if tier == "thorough" else (2, 2))}]
RULE = ("every log of up to the bound of traces and events over three kinds of events and no, UTC, zoned and naive times; seeded logs of up to 8 traces with empty traces, equal "
        "traces, shared events, every attribute type under classified keys and under time:timestamp, nested attributes and globals, summarised with every choice of default "
        "and extra classifiers (composite, equal, keyless), for summaries obtained by create, constructor and factory, and several summaries of one log")
ASSUMPTIONS = ["events with equal identities are the same event", "a date without zone counts as UTC", "an event whose time:timestamp is no timestamp has no time"]


def cases(ctx):
    rng = ctx.rng("p18")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P18"]), key=str)
    seen, logs = set(), []
    for h in hist:
        if str(h) not in seen:
            seen.add(str(h))
            logs.append(h)
    if len(logs) > ctx.n(450, 6000):
        logs = rng.sample(logs, ctx.n(450, 6000))
    for i, h in enumerate(logs):
        out.append({"id": "log-{:05d}".format(i), "log": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(160, 2500)):
        out.append({"id": "long-{:04d}".format(i), "log": None, "seed": rng.randrange(10**9)})
    return out


MC_KEYS = {(1,): "concept:name", (2,): "lifecycle:transition"}
MC_VALS = {(5,): "x", (6,): "y"}


def execute(case):
    rng = random.Random(case["seed"])
    from opyenxes.factory.XFactory import XFactory
    f = XFactory()
    log = f.create_log()
    if case["log"] is not None:
        for t in case["log"]:
            tr = f.create_trace()
            log.append(tr)
            for pairs, d in t:
                e = f.create_event()
                for k, v in pairs:
                    e.get_attributes()[MC_KEYS[tuple(k)]] = f.create_attribute_literal(MC_KEYS[tuple(k)], MC_VALS[tuple(v)])
                if d:
                    e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", snap.to_datetime(d))
                tr.append(e)
        keys = list(MC_KEYS.values())
    else:
        keys = rng.sample(p16.KEYS, rng.randrange(1, 5)) + ["concept:name", "time:timestamp"]
        pool = {k: [p16.new_attr(rng, f, k) for _ in range(rng.randrange(1, 4))] for k in keys}
        base = [gen.stamp(rng) for _ in range(3)]
        for d in base:
            d[0] = min(9997, max(3, d[0]))
        base += [p12.rezone(rng, d) for d in base] + [p19.shift(d, 1) for d in base]
        for a in gen.amap_of(rng, 3, 3).values():
            log.get_attributes()[a["k"]] = snap.build_attr(a, link=True)
        log.get_global_event_attributes().append(snap.build_attr(gen.tree(rng, 1)))
        log.get_global_trace_attributes().append(snap.build_attr(gen.tree(rng, 1)))
        for _ in range(rng.randrange(0, 9)):
            r = rng.random()
            if r < .1 and len(log):
                log.append(rng.choice(log))              # the same trace again
                continue
            if r < .2 and len(log):
                log.append(rng.choice(log).clone())
                continue
            t = f.create_trace()
            for a in gen.amap_of(rng, 2, 2).values():
                t.get_attributes()[a["k"]] = snap.build_attr(a, link=True)
            log.append(t)
            for _ in range(rng.choice((0, 1, 2, 3, 12))):
                if rng.random() < .1 and any(len(x) for x in log):
                    t.append(rng.choice([e for x in log for e in x]))     # a shared event
                    continue
                e = f.create_event()
                for k in keys:
                    if rng.random() < .75:
                        e.get_attributes()[k] = rng.choice(pool[k]).clone()
                if rng.random() < .6:
                    e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", snap.to_datetime(rng.choice(base)))
                t.append(e)
    evs = []
    for _ in range(1 if case["log"] is not None else rng.choice((1, 2, 3))):
        evs.append(summarise(rng, log, keys))
    return evs


def summarise(rng, log, keys):
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    extra = [p16.classifier(rng, keys) for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 2, 4, 4, 12)))]
    if extra and rng.random() < .3:
        c = XEventAndClassifier([x[0] for x in extra])
        extra.append((c, c.name(), list(c.get_defining_attribute_keys())))
    if extra and rng.random() < .3:
        extra.append(rng.choice(extra))
    r = rng.random()
    default = None if r < .35 else rng.choice(extra) if extra and r < .5 else p16.classifier(rng, keys)
    eff = default or (XLogInfo.STANDARD_CLASSIFIER, "MXML Legacy Classifier", ["concept:name", "lifecycle:transition"])
    d = default[0] if default else None
    cs = [x[0] for x in extra]
    traces = [[[[[cp(k), cp(str(a))] for k, a in e.get_attributes().items()], stamp_of(e)] for e in t] for t in log]
    before = snap.state(log)
    how = rng.randrange(5)
    if how == 0 and not cs:
        info = XLogInfo.create(log, d) if d or rng.random() < .5 else XLogInfo.create(log)
    elif how == 1 and not cs:
        info = XLogInfoFactory.create_log_info(log, d) if d else XLogInfoFactory.create_log_info(log)
    elif how == 2 and d is not None:
        info = XLogInfo(log, d, cs if cs or rng.random() < .5 else None)
    elif how == 3:
        info = XLogInfo.create(log, classifiers=cs, default_classifier=d)
    else:
        info = XLogInfo.create(log, d, cs)
    fixed = p16.standard()
    want = [eff] + extra + fixed
    asks = [(eff, info.get_event_classes()), (eff, info.get_event_classes(eff[0])), (fixed[0], info.get_name_classes()), (fixed[1], info.get_resource_classes()),
            (fixed[2], info.get_transition_classes())]
    for x in extra + fixed:
        asks.append((x, info.get_event_classes(x[0])))
        asks.append((x, info.get_event_classes(XEventAttributeClassifier("".join(x[1]), list(x[2])))))
    events = [e for t in log for e in t]
    few = rng.sample(events, min(3, len(events)))
    classes = []
    for (c, n, ks), s in asks:
        if s is None:
            classes.append({"keys": [cp(k) for k in ks], "len": -1, "classes": [], "byix": [], "byid": [], "of": []})
            continue

        def one(x):
            return [] if x is None else [[cp(x.get_id()), x.get_index(), x.size()]]
        got = [one(x)[0] for x in s.get_classes()]
        classes.append({"keys": [cp(k) for k in ks], "len": len(s), "classes": got,
                        "byix": [[i, one(s.get_by_index(i))] for i in range(min(3, len(s)))], "byid": [[g[0], one(s.get_by_identity("".join(map(chr, g[0]))))] for g in got[:3]],
                        "of": [[[[cp(k), cp(str(a))] for k, a in e.get_attributes().items()], one(s.get_class_of(e))] for e in few]})
    probes = []
    for e in few:
        x = stamp_of(e)
        if x:
            probes += [x, p19.shift(x, 1), p19.shift(x, -1)]

    def span(b):
        if b is None:
            return {"start": [1, 1, 1, 0, 0, 0, 0, 0], "end": [], "within": []}
        s, e = b.get_start_date(), b.get_end_date()
        return {"start": [] if s is None else snap.fields(s), "end": [] if e is None else snap.fields(e),
                "within": [[p, b.is_within(snap.to_datetime(p))] for p in probes]}
    return {"op": "summary", "log": traces, "want": [[cp(n), [cp(k) for k in ks]] for _, n, ks in want],
            "known": [[cp(c.name()), [cp(k) for k in c.get_defining_attribute_keys()]] for c in info.get_event_classifiers()],
            "ntraces": info.get_number_of_traces(), "nevents": info.get_number_of_event(), "classes": classes,
            "bounds": span(info.get_log_time_boundaries()), "each": [span(info.get_trace_time_boundaries(t)) for t in log],
            "samelog": info.get_log() is log, "changed": snap.state(log) != before}


def stamp_of(e):
    a = e.get_attributes().get("time:timestamp")
    return snap.fields(a.get_value()) if a is not None and snap.typ(a) == "timestamp" else []
