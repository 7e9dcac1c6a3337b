import random
import struct
import uuid

import gen
import snap
from drv.p11 import matrix
from vlib import enc, dec

TR = "Tr_P13"
CHUNKS = 4
MC = [{"module": "MC_P13", "workers": 4, "cfg": lambda tier: """CONSTANTS
  Size = %d
INIT Init
NEXT Next
INVARIANTS TotalOrder
CHECK_DEADLOCK FALSE
""" % 3}]
RULE = ("for each kind (six value types, list, container, plain attributes and collections, identities, event classes, classifiers of every class): every pair over small "
        "values, and seeded families with many ties, near values, prefixes, case, non-ASCII and astral texts, big integers, extreme floats, negative zero, equal "
        "instants in different zones; comparison sign, six operators and hash of all pairs; seeded mixed families of all kinds and foreign objects: equality of all pairs")
ASSUMPTIONS = ["NaN excluded", "a timestamp without zone counts as UTC", "identities: any total order whose zero is equality"]

TEXTS = ["", "a", "b", "A", "B", "aa", "ab", "aA", "a a", "a-b", "a:b", "Z", "z", "10", "9", "\u00e4", "\u00df", "ss", "\uffff", "\U0001f600", "\u0416", "a\u0301", "\u00e1", "\x00", "ab\x00", "~",
         "concept:name", "concept:Name", "concept"]
KINDS = ["literal", "discrete", "continuous", "boolean", "timestamp", "id", "list", "container", "collection", "attribute", "class", "classifier", "xid"]


def num(i):
    return {"neg": i < 0, "mag": [int(c) for c in str(abs(i))]}


def fnum(f):
    bits = struct.unpack("<Q", struct.pack("<d", f))[0]
    mag = bits & (2**63 - 1)
    return {"neg": bool(bits >> 63) and mag != 0, "mag": [int(c) for c in str(mag)]}


def value(rng, kind, group):
    """A JSON value from which the real value is built, group mixing timestamps with and without zone."""
    if kind == "literal":
        return rng.choice(TEXTS) if rng.random() < .7 else gen.text(rng, 6)
    if kind == "discrete":
        return rng.choice(gen.INTS + [2, 10, 9, -2, -10, -9, 2**53, -2**53 - 1, 10**20 + 1, -10**20]) if rng.random() < .7 else rng.randrange(-50, 50)
    if kind == "continuous":
        r = rng.random()
        if r < .6:
            return float(rng.choice([f for f in gen.FLOATS if f != "nan"] + ["10.0", "9.0", "0.30000000000000004", "0.3", "9007199254740993", "-5e-324"])).hex()
        return (rng.choice((1, -1)) * rng.uniform(0, 10)).hex()
    if kind == "boolean":
        return rng.random() < .5
    if kind == "timestamp":
        if rng.random() < .5:     # one instant in several zones, and its neighbours
            us = rng.choice((500000, 500000, 500001, 499999))
            base = [2017, 6, 15, 12, 30, 30, us, 0]
            if group and rng.random() < .4:
                return base[:7] + [snap.NAIVE]
            from datetime import timedelta, timezone
            return snap.fields(snap.to_datetime(base).astimezone(timezone(timedelta(minutes=rng.choice((0, 60, -210, 840, -720, 1439))))))
        d = gen.stamp(rng)
        d[0] = min(9997, max(3, d[0]))
        return d[:7] + [snap.NAIVE if group and rng.random() < .5 else rng.choice([o for o in gen.OFFS if o != snap.NAIVE])]
    if kind in ("id", "xid"):
        return rng.choice((0, 1, 2, 255, 256, 2**64, 2**64 - 1, 2**127, 2**127 - 1, 2**128 - 1, rng.getrandbits(128)))
    if kind == "classifier":
        return [rng.choice(TEXTS[:12]) for _ in range(rng.randrange(0, 4))]
    return rng.randrange(0, 3)     # contents of what is compared by key


def item(kind, k, v):
    """The item as the specification reads it."""
    k = [ord(c) for c in k]
    if kind == "literal":
        v = [ord(c) for c in v]
    elif kind == "discrete":
        v = num(v)
    elif kind == "continuous":
        v = fnum(float.fromhex(v))
    elif kind in ("id", "xid"):
        v = str(v)
    elif kind == "classifier":
        v = [[ord(c) for c in x] for x in v]
    return {"k": k, "v": v}


def real(kind, k, v, n, how):
    """n, how vary what must not matter."""
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.classification.XEventClass import XEventClass
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.id.XID import XID
    from opyenxes.model.XAttribute import XAttribute
    from opyenxes.model.XAttributeCollection import XAttributeCollection
    from opyenxes.extension.XExtensionManager import XExtensionManager
    f = XFactory()
    x = XExtensionManager().get_by_index(n % 8) if n % 3 == 0 else None
    k = "".join(k)     # a new string
    if kind == "class":
        c = XEventClass(k, n)
        c.set_size(n * 7 % 5)
        return c
    if kind == "classifier":
        if how and k == "Event Name" and v == ["concept:name"]:
            from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
            return XEventNameClassifier()
        if how and v == sorted(v) and len(set(v)) == len(v) and v and k == "(p AND q)":
            from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
            return XEventAndClassifier([XEventAttributeClassifier("p", v), XEventAttributeClassifier("q", v[::-1])])
        c = XEventAttributeClassifier("other" if n % 5 == 1 else k, list(v))
        if n % 5 == 1:
            hash(c)
            c.set_name(k)
        return c
    if kind == "xid":
        c = XID(uuid.UUID(int=v + 1 if n % 5 == 1 and v < 2**127 else v))
        if n % 5 == 1:
            hash(c)
            c.set_uuid(uuid.UUID(int=v))
        return c
    if kind == "attribute":
        a = XAttribute(k, x)
    elif kind == "collection":
        a = XAttributeCollection(k, x)
    elif kind in ("list", "container"):
        a = getattr(f, "create_attribute_" + kind)(k, x)
    else:
        if kind == "continuous":
            v = float.fromhex(v)
        elif kind == "id":
            v = XID(uuid.UUID(int=v))
        elif kind == "timestamp":
            v = snap.to_datetime(v)
        a = getattr(f, "create_attribute_" + kind)(k, v, x)
        if n % 5 == 1:     # an item that had another value before
            a.set_value({"literal": "zz", "discrete": 99, "continuous": 99.5, "boolean": not v, "id": XID()}.get(kind, snap.to_datetime([1999, 1, 1, 0, 0, 0, 0, 0])))
            hash(a), str(a)
            a.set_value(v)
    if kind in ("list", "container", "collection"):
        for i in range(v):
            a.add_to_collection(f.create_attribute_literal("c{}".format(i), str(n)))
    if n % 4 == 0:
        a.get_attributes()["nested"] = f.create_attribute_discrete("nested", n)
    return a


def cases(ctx):
    rng = ctx.rng("p13")
    out, per = [], {}
    for kind, its in ctx.hist["MC_P13"]:
        per.setdefault(kind, {})
        for a in its:
            per[kind][str(a)] = a
    for kind, its in sorted(per.items()):
        lst = [its[x] for x in sorted(its)]
        # families that together hold every pair
        half = [lst[i:i + 8] for i in range(0, len(lst), 8)]
        for i in range(len(half)):
            for j in range(i, len(half)):
                fam = half[i] + (half[j] if j > i else [])
                kinds = {"discrete": ["discrete", "continuous"], "list": ["list", "container", "collection", "attribute"]}.get(kind, [kind])
                for k2 in kinds:
                    rows = []
                    for a in fam:
                        k = "".join("abc"[c] for c in a["k"])
                        v = a["v"]
                        if kind == "literal":
                            v = "".join("abc"[c] for c in v)
                        elif kind == "discrete":
                            v = (-1 if v["neg"] else 1) * int("".join(map(str, v["mag"])))
                            v = float(v).hex() if k2 == "continuous" else v
                        elif kind == "classifier":
                            v = ["".join("abc"[c] for c in x) for x in v]
                        rows.append([k, v])
                    out.append({"id": "small-{}-{}-{}".format(k2, i, j), "kind": k2, "rows": rows})
    for kind in KINDS:
        for i in range(ctx.n(14, 150)):
            ks = rng.sample(TEXTS, rng.choice((1, 2, 3, 8)))
            rows = []
            for _ in range(ctx.n(12, 20)):
                if rows and rng.random() < .25:
                    rows.append(list(rng.choice(rows)))
                else:
                    rows.append([rng.choice(ks), value(rng, kind, i % 2)])
            if kind == "classifier" and i % 3 == 0:
                rows += [["Event Name", ["concept:name"]]] * 2 + [["(p AND q)", ["a", "b"]]] * 2 + [["(p AND q)", ["b", "a"]], ["(p AND q)", ["a"]]]
            rng.shuffle(rows)
            out.append({"id": "family-{}-{:03d}".format(kind, i), "kind": kind, "rows": [[enc(k), v if kind not in ("literal", "classifier") else [enc(x) for x in v] if kind == "classifier" else enc(v)] for k, v in rows], "enc": True})
    for kind in ("literal", "attribute", "class", "classifier", "list", "discrete"):       # long texts and numbers that differ late
        base = gen.text(rng, 20) + "p" * rng.choice((300, 1100))
        rows = []
        for n in range(6):
            k = base + "aab"[n % 3] if n else base
            v = base + rng.choice(("", "a", "b")) if kind == "literal" else [base + "x" * (n % 2)] if kind == "classifier" else 10**600 + n // 2 if kind == "discrete" else 0
            rows.append([k if kind != "literal" or n % 2 else "k", v])
        out.append({"id": "long-" + kind, "kind": kind, "rows": [[enc(k), v if kind not in ("literal", "classifier") else [enc(x) for x in v] if kind == "classifier" else enc(v)] for k, v in rows], "enc": True})
    kinds = [k for k in KINDS if k not in ("attribute", "collection")]
    for i in range(ctx.n(30, 400)):
        ks = rng.sample(TEXTS, rng.choice((1, 2)))
        rows = []
        for _ in range(ctx.n(14, 20)):
            if rows and rng.random() < .4:
                kind, k, v = rng.choice(rows)
                other = rng.choice([x for x in kinds if (x in ("list", "container", "class")) == (kind in ("list", "container", "class")) and (x in ("id", "xid")) == (kind in ("id", "xid"))])
                same = other == kind or kind in ("list", "container", "class", "id", "xid")
                rows.append([other, k, v if same else value(rng, other, 0)])
            else:
                kind = rng.choice(kinds)
                v = value(rng, kind, 0)
                rows.append([kind, rng.choice(ks), 1 if kind == "discrete" and rng.random() < .6 else (1.0).hex() if kind == "continuous" and rng.random() < .6 else "1" if kind == "literal" and rng.random() < .3 else v])
        out.append({"id": "mixed-{:03d}".format(i), "kind": "mixed",
                    "rows": [[kind, enc(k), v if kind not in ("literal", "classifier") else [enc(x) for x in v] if kind == "classifier" else enc(v)] for kind, k, v in rows]})
    return out


def mixed(case):
    """Objects of several kinds, and things that are no objects of the library: only equality makes sense."""
    rows = [[kind, dec(k), dec(v) if kind == "literal" else [dec(x) for x in v] if kind == "classifier" else v] for kind, k, v in case["rows"]]
    xs = [real(kind, k, v, n, n % 2) for n, (kind, k, v) in enumerate(rows)]
    odd = [None, "a", rows[0][1], 1, 1.0, True, [], object(), dict(), uuid.UUID(int=1)]
    return [{"op": "mixed", "it": [dict(item(kind, k, v), kind=kind) for kind, k, v in rows], "eq": [[[a == b, a != b] for b in xs] for a in xs],
             "h": [str(hash(a)) for a in xs], "odd": [[[a == b, b == a, a != b, b != a] for b in odd] for a in xs]}]


def execute(case):
    kind, rows = case["kind"], case["rows"]
    if kind == "mixed":
        return mixed(case)
    if case.get("enc"):
        rows = [[dec(k), dec(v) if kind == "literal" else [dec(x) for x in v] if kind == "classifier" else v] for k, v in rows]
    xs = [real(kind, k, v, n, n % 2) for n, (k, v) in enumerate(rows)]
    return [{"op": "matrix", "kind": kind, "it": [item(kind, k, v) for k, v in rows], **matrix(xs)}]
