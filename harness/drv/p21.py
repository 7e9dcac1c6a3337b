"""Summaries asked for, cached, set and cloned away."""
import random

import snap

TR = "Tr_P21"
CHUNKS = 2
MC = [{"module": "MC_P21", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Sound Again
PROPERTIES OthersKept
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every history of requests, summaries made aside, explicit settings and clones over two logs and three classifiers up to the bound, each request with the same "
        "classifier object or an equal new one (plain, composite or standard); seeded longer histories over nine classifiers that share names, keys or lengths; after each "
        "step what every log has cached for every classifier")
ASSUMPTIONS = ["a summary set explicitly is set for its own log and the classifier it was built for", "a log asked without classifier uses the standard one"]
# name, keys; 0 is the standard classifier
VALUES = [("MXML Legacy Classifier", ["concept:name", "lifecycle:transition"]), ("Event Name", ["concept:name"]), ("MXML Legacy Classifier", ["concept:name"]),
          ("MXML Legacy Classifier", ["lifecycle:transition", "concept:name"]), ("x", ["concept:name", "lifecycle:transition"]), ("Resource", ["org:resource"]),
          ("(Event Name AND Resource)", ["concept:name", "org:resource"]), ("x", []), ("", [""])]


def cases(ctx):
    rng = ctx.rng("p21")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P21"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    if len(hist) > ctx.n(2000, 20000):
        hist = rng.sample(hist, ctx.n(2000, 20000))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "map": [0] + rng.sample(range(1, len(VALUES)), 2), "seed": rng.randrange(10**9)})
    for i in range(ctx.n(150, 2000)):
        ops, logs, made = [], 2, 0
        for _ in range(rng.randrange(8, 30)):
            r = rng.random()
            l = rng.randrange(1, logs + 1)
            c = rng.choice((rng.randrange(len(VALUES)), rng.randrange(3)))
            if r < .65:
                ops.append(["ask", l, c])
            elif r < .75:
                ops.append(["make", l, c])
            elif r < .85:
                ops.append(["setany", l, rng.randrange(100)])
            elif r < .95:
                ops.append(["change", l, rng.randrange(100)])
            elif logs < 5:
                ops.append(["clone", l])
                logs += 1
        out.append({"id": "long-{:04d}".format(i), "ops": ops, "map": list(range(len(VALUES))), "seed": rng.randrange(10**9)})
    return out


def execute(case):
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    rng = random.Random(case["seed"])
    f = XFactory()
    logs, infos, kept = [], [], {}

    def classifier(v):
        if v in kept and rng.random() < .3:
            return kept[v]
        n, ks = VALUES[v]
        c = None
        if v == 1 and rng.random() < .5:
            c = XEventNameClassifier()
        elif v == 5 and rng.random() < .5:
            c = XEventResourceClassifier()
        elif v == 6 and rng.random() < .5:
            c = XEventAndClassifier([XEventNameClassifier(), XEventResourceClassifier()])
        elif v == 0 and rng.random() < .3:
            c = XLogInfo.STANDARD_CLASSIFIER
        else:
            c = XEventAttributeClassifier("".join(n), list(ks))
        kept[v] = c
        return c

    def number(info, add=False):
        if info is None:
            return 0
        for i, x in enumerate(infos, 1):
            if x is info:
                return i
        if add:
            infos.append(info)
            return len(infos)
        return -1

    def value(c):
        v = (c.name(), list(c.get_defining_attribute_keys()))
        return VALUES.index(v) if v in VALUES else -1

    def look(**ev):
        ev["cache"] = [[[v, number(x.get_info(classifier(v)))] for v in sorted(set(case["map"]))] for x in logs]
        ev["made"] = [[[i for i, x in enumerate(logs, 1) if x is info.get_log()][0], value(info.get_event_classes().get_classifier())] for info in infos]
        return ev

    def new(e):
        x = f.create_log()
        t = f.create_trace()
        t.append(f.create_event())
        if e:
            x.append(t)
        logs.append(x)
        return look(op="log")
    evs = [new(True), new(rng.random() < .5)]
    for op in case["ops"]:
        log = logs[op[1] - 1]
        if op[0] == "ask":
            v = case["map"][op[2]]
            if v == 0 and rng.random() < .5:
                got = XLogInfoFactory.create_log_info(log) if rng.random() < .5 else XLogInfoFactory.create_log_info(log, None)
            else:
                got = XLogInfoFactory.create_log_info(log, classifier(v))
            evs.append(look(op="ask", l=op[1], c=v, got=number(got, True)))
        elif op[0] == "make":
            v = case["map"][op[2]]
            infos.append(XLogInfo.create(log, classifier(v)))
            evs.append(look(op="make", l=op[1], c=v))
        elif op[0] in ("set", "setany"):
            i = op[2]
            if op[0] == "setany":
                mine = [j for j, x in enumerate(infos, 1) if x.get_log() is log]
                if not mine:
                    continue
                i = mine[op[2] % len(mine)]
            info = infos[i - 1]
            v = value(info.get_event_classes().get_classifier())
            log.set_info(classifier(v), info)
            evs.append(look(op="set", l=op[1], c=v, i=i))
        elif op[0] == "change":
            from drv import p10
            log.append(p10.new_trace(op[2])) if op[2] % 2 else log.get_attributes().__setitem__("k", p10.fresh(op[2]))
        else:
            logs.append(log.clone())
            evs.append(look(op="log"))
    return evs
