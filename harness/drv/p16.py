"""Classifiers over events whose attributes come, change and go."""
import random

import gen
import snap
from snap import attr
from vlib import enc

TR = "Tr_P16"
CHUNKS = 4
MC = [{"module": "MC_P16", "workers": 4, "cfg": lambda tier: """CONSTANTS
  MaxKeys = %d
  Events = 2
INIT Init
NEXT Next
INVARIANTS Equivalence IdentityDecides MissingIsEmpty Composite
CHECK_DEADLOCK FALSE
""" % (3 if tier == "thorough" else 2)}]
RULE = ("every change (set, empty, remove) of one attribute of two events under every key list up to the bound, looked at before and after; seeded populations of events "
        "with all attribute types, missing, empty, equal, near, cross-slot and separator values under key lists of 0 to 6 keys (repeated keys included), the standard "
        "classifiers and composites of up to 4 parts, before and after attributes change; the identities, the relation of all pairs, name and keys")
ASSUMPTIONS = ["values containing & : the identity is judged, the relation only on an event with itself", "the text of a value is the text its attribute gives of itself"]


def cp(s):
    return [ord(c) for c in s]


MC_KEYS = {(1,): "a", (2,): "b", (1, 1): "aa"}
MC_VALS = {(): "", (5,): "v", (6,): "w"}


def cases(ctx):
    rng = ctx.rng("p16")
    out = []
    by = {}
    for h in ctx.hist["MC_P16"]:
        by.setdefault(str(h[0]), []).append(h)
    size = 60
    for k in sorted(by):
        hs = sorted(by[k], key=str)
        hs = rng.sample(hs, min(len(hs), ctx.n(180, 450)))
        for i in range(0, len(hs), size):
            out.append({"id": "hist-{}-{:03d}".format("".join(c if c.isdigit() else "_" for c in k), i // size), "how": "hist", "hs": hs[i:i + size]})
    for i in range(ctx.n(4, 30)):
        out.append({"id": "wide-{:04d}".format(i), "how": "wide", "seed": rng.randrange(10**9)})
    for i in range(ctx.n(130, 900)):
        out.append({"id": "many-{:04d}".format(i), "how": "many", "seed": rng.randrange(10**9)})
    return out


def look(op, c, evs, extra, others=()):
    texts = [[[cp(k), cp(str(a))] for k, a in e.get_attributes().items()] for e in evs]
    before = snap.digest([snap.snap_event(e) for e in evs])
    r = {"op": op, "evs": texts, "name": cp(c.name()), "keys": [cp(k) for k in c.get_defining_attribute_keys()], "ids": [cp(c.get_class_identity(e)) for e in evs],
         "same": [[c.same_event_class(a, b) for b in evs] for a in evs]}
    for f, v in extra.items():
        r[f] = v
    if others:
        r["parts"] = [{"name": cp(n), "keys": [cp(k) for k in ks], "same": [[o.same_event_class(a, b) for b in evs] for a in evs]} for o, n, ks in others]
    r["changed"] = snap.digest([snap.snap_event(e) for e in evs]) != before
    return r


def literal(f, k, v):
    return f.create_attribute_literal(k, v)


def execute(case):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.factory.XFactory import XFactory
    f = XFactory()
    if case["how"] == "hist":
        evs = []
        for h in case["hs"]:
            ks = [MC_KEYS[tuple(k)] for k in h[0]]
            es = []
            for pairs in h[1]:
                e = f.create_event()
                for k, v in pairs:
                    e.get_attributes()[MC_KEYS[tuple(k)]] = literal(f, MC_KEYS[tuple(k)], MC_VALS[tuple(v)])
                es.append(e)
            want = {"want": {"name": cp("n"), "keys": [cp(k) for k in ks]}}
            c = XEventAttributeClassifier("n", list(ks))
            evs.append(look("plain", c, es, want))
            m, k = es[h[2] - 1].get_attributes(), MC_KEYS[tuple(h[3])]
            if len(h) == 5:
                v = MC_VALS[tuple(h[4])]
                if k in m and len(evs) % 4 == 1:
                    m[k].set_value(v)
                else:
                    m[k] = literal(f, k, v)
            else:
                del m[k]
            evs.append(look("plain", c, es, want))
            half = len(ks) // 2
            parts = [(XEventAttributeClassifier(n, list(p)), n, p) for n, p in (("p", ks[:half]), ("q", ks[half:]))]
            if len(evs) % 3 == 0:
                evs.append(composite(parts, es))
        return evs
    if case["how"] == "wide":
        return wide(random.Random(case["seed"]), f)
    return many(random.Random(case["seed"]), f)


def composite(parts, es):
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    return look("and", XEventAndClassifier([p[0] for p in parts]), es, {}, parts)


KEYS = ["concept:name", "lifecycle:transition", "org:resource", "time:timestamp", "a", "b", "A", "aa", "\u00e4", "", "k&", "concept:nam", "x y", "cost:total"]


def new_attr(rng, f, k):
    t = rng.choice(gen.TYPES) if rng.random() < .4 else "literal"
    if k == "time:timestamp" and rng.random() < .8:
        t = "timestamp"
    if t == "literal":
        r = rng.random()
        v = "s" + enc(rng.choice(["", "x", "y", "X", "x ", "xy", "1", "1.0", "true", "True", "\u00e4", "\U0001f600", "[]", " ", "None"]) if r < .9 else
                      rng.choice(["&", "&&", "x&", "&x", "x&&y", "x&&", "&&y", "&amp;"]))
        return snap.build_attr(attr(k, t, v), f)
    if t in ("discrete", "boolean", "continuous"):
        v = {"discrete": ["i1", "i0", "i-1", "i10"], "boolean": ["btrue", "bfalse"], "continuous": ["f1.0", "f0.0", "f-0.0", "f1.5"]}[t]
        return snap.build_attr(attr(k, t, rng.choice(v)), f)
    if t == "timestamp":
        d = [2017, 6, 15, 12, 30, 30, rng.choice((0, 0, 1000, 500)), rng.choice((0, 0, 60, snap.NAIVE))]
        return snap.build_attr(attr(k, t, "d", d), f)
    return snap.build_attr(gen.tree(rng, rng.randrange(0, 2), 2, k=k, t=t), f)


def standard():
    from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
    return [(XEventNameClassifier(), "Event Name", ["concept:name"]), (XEventResourceClassifier(), "Resource", ["org:resource"]),
            (XEventLifeTransClassifier(), "Lifecycle transition", ["lifecycle:transition"])]


def classifier(rng, keys):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    if rng.random() < .3:
        return rng.choice(standard())
    ks = [rng.choice(keys) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 6)))]
    n = rng.choice(["", "n", "Event Name", "a AND b", "\u00e4", "(x)"])
    return (XEventAttributeClassifier(n, list(ks)), n, ks)


def wide(rng, f):
    """Many keys, long values that differ late."""
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    keys = ["k{}".format(n) for n in range(rng.randrange(35, 70))]
    rng.shuffle(keys)
    base = "".join(rng.choice("xyz ") for _ in range(rng.choice((260, 1100))))
    es = []
    for n in range(4):
        e = f.create_event()
        for k in keys:
            if rng.random() < .95 or n < 2:
                e.get_attributes()[k] = literal(f, k, "v")
        e.get_attributes()["long"] = literal(f, "long", base + "ab"[n % 2])
        es.append(e)
    es[1].get_attributes()[max(keys)] = literal(f, max(keys), "w")
    evs = []
    for ks in (keys, keys[:40], ["long"], ["long", keys[0]], ["long"] + keys[:3]):
        evs.append(look("plain", XEventAttributeClassifier("n", list(ks)), es, {"want": {"name": cp("n"), "keys": [cp(k) for k in ks]}}))
    for parts in ([keys[:20], keys[20:]], [[k] for k in keys], [keys, ["long"]]):
        parts = [(XEventAttributeClassifier("p{}".format(n), list(p)), "p{}".format(n), p) for n, p in enumerate(parts)]
        evs.append(look("and", XEventAndClassifier([p[0] for p in parts]), es, {}, parts))
    return evs


def many(rng, f):
    keys = rng.sample(KEYS, rng.randrange(2, 7)) + ["concept:name"] * (rng.random() < .5)
    pool = {k: [new_attr(rng, f, k) for _ in range(rng.randrange(1, 4))] for k in keys}
    es = []
    for _ in range(rng.randrange(2, 9)):
        e = f.create_event()
        for k in keys:
            if rng.random() < .75:
                a = rng.choice(pool[k])
                e.get_attributes()[k] = a.clone() if rng.random() < .7 else a
        es.append(e)
        if rng.random() < .2:
            es.append(es[rng.randrange(len(es))].clone())
        if rng.random() < .15:
            e.set_id(rng.choice(es).get_id())        # another event of the same identity
    cs = [classifier(rng, keys) for _ in range(3)] + standard()
    ands = []
    for _ in range(2):
        ands.append([rng.choice(cs) if rng.random() < .5 else classifier(rng, keys) for _ in range(rng.randrange(1, 5))])
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    made = [XEventAndClassifier([p[0] for p in ps]) for ps in ands]
    evs = []
    for step in range(3):
        for c, n, ks in cs:
            evs.append(look("plain", c, es, {"want": {"name": cp(n), "keys": [cp(k) for k in ks]}}))
        for c, ps in zip(made, ands):
            evs.append(look("and", c, es, {}, ps))
            if rng.random() < .2:     # a composite of composites
                p = rng.choice(cs)
                two = [(c, c.name(), list(c.get_defining_attribute_keys())), p]
                evs.append(look("and", XEventAndClassifier([c, p[0]]), es, {}, two))
        for _ in range(3):
            m = rng.choice(es).get_attributes()
            k = rng.choice(keys)
            r = rng.random()
            if k in m and r < .4:
                del m[k]
            elif k in m and r < .6 and snap.typ(m[k]) == "literal":
                m[k].set_value(rng.choice(("", "x", "z")))
            else:
                m[k] = new_attr(rng, f, k)
    return evs
