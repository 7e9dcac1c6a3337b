import random

import gen
import snap
from vlib import enc

TR = "Tr_P15"
CHUNKS = 2
MC = [{"module": "MC_P15", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Closed SameByRecursion NothingOfNothing Monotone
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("every history of adding, replacing and removing attributes with and without extension at nested paths the machine admits, on events, traces, logs, plain elements "
        "and attributes of every type, and seeded deep trees over standard and own extensions; what every node reports after each step; a log's given collection; returned sets spoiled by the caller")
ASSUMPTIONS = ["children of lists and containers count when they are also nested attributes (as the XES reader makes them)"]
ROOTS = ["event", "trace", "log", "element", "literal", "discrete", "continuous", "boolean", "timestamp", "id", "list", "container"]
OWN = ["x1", "x2", "x3"]
EXTS = gen.STD + OWN


def cases(ctx):
    rng = ctx.rng("p15")
    out = []
    for i, h in enumerate(sorted(ctx.hist["MC_P15"], key=str)):
        out.append({"id": "hist-{:05d}".format(i), "root": ROOTS[i % len(ROOTS)], "seed": i, "ops": h})
    for i in range(ctx.n(200, 3000)):
        ops, paths = [], []
        for _ in range(rng.randrange(3, 22)):
            r = rng.random()
            if r < .65 or not paths:
                base = rng.choice(paths) if paths and rng.random() < .7 else []
                p = base + [rng.choice("abcd")]
                ops.append(["put", p, rng.choice(EXTS + ["N"] * 6)])
                paths = [q for q in paths if q[:len(p)] != p] + [p]
            elif r < .8:
                p = rng.choice(paths)
                ops.append(["del", p])
                paths = [q for q in paths if q[:len(p)] != p]
            elif r < .87:
                ops.append(["spoil"])
            else:
                ops.append([rng.choice(("give", "give", "take")), rng.choice(EXTS)])
        root = rng.choice(ROOTS)
        out.append({"id": "seeded-{:05d}".format(i), "root": root, "seed": i, "ops": [o for o in ops if root == "log" or o[0] not in ("give", "take")]})
    for i in range(ctx.n(8, 80)):
        n = rng.randrange(20, 120)
        flat = i % 2 == 0
        ops = [["put", ["k%d" % j] if flat else ["d%d" % m for m in range(j // 4)] + ["k%d" % (j % 4), "abcd"[j % 4]][:1], rng.choice(["N"] * 12 + EXTS) if j < n - 1 else rng.choice(EXTS)] for j in range(n)] if flat else \
            [["put", ["d%d" % m for m in range(j + 1)], rng.choice(["N"] * 5 + EXTS)] for j in range(n // 4)]
        out.append({"id": "large-{:04d}".format(i), "root": rng.choice(ROOTS), "seed": i, "ops": ops})
    return out


def extension(x, own):
    from opyenxes.extension.XExtension import XExtension
    if x == "N":
        return None
    if x in OWN:
        if x not in own:
            own[x] = XExtension("Own " + x, x, "http://own.example/{}.xesext".format(x))
        return own[x]
    return snap.extension_of(x)


def execute(case):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.model.XElement import XElement
    rng = random.Random(case["seed"])
    f, own, evs = XFactory(), {}, []
    r = case["root"]

    def fresh(k, x):
        t = rng.choice(snap_types)
        return snap.build_attr(snap.attr(k, t, *sample(t))) if x is None else make(k, t, x)

    def make(k, t, x):
        if t in ("list", "container"):
            return getattr(f, "create_attribute_" + t)(k, x)
        a = snap.attr(k, t, *sample(t))
        return getattr(f, "create_attribute_" + t)(k, snap.value_of(a), x)

    def sample(t):
        v, d = gen.value(rng, t)
        return v, d

    snap_types = gen.TYPES
    if r in gen.TYPES:
        root = make("root", r, extension("x1", own) if case["seed"] % 2 else None)    # its own extension is not among those it reports
    elif r == "element":
        root = XElement(f.create_attribute_map())
    else:
        root = getattr(f, "create_" + r)()
    tree = {}
    puts = [str(o[1]) for o in case["ops"] if o[0] == "put"]
    both = len(set(puts)) == len(puts) and all(o[0] != "del" for o in case["ops"])     # children stay both in the map and in the collection

    def node(p):
        return root if not p else tree[tuple(p)]

    def name(x):
        p = x.get_prefix() if hasattr(x, "get_prefix") else "?" + type(x).__name__
        return enc(p)

    spoiled = False
    for o in case["ops"]:
        op, ev = o[0], {"op": o[0], "log": r == "log"}
        if op in ("put", "del"):
            p = tuple(o[1])
            parent = node(p[:-1])
            for q in [q for q in tree if q[:len(p)] == p]:
                del tree[q]
            ev["p"] = o[1]
            if op == "put":
                a = fresh(p[-1], extension(o[2], own))
                parent.get_attributes()[p[-1]] = a
                if both and hasattr(parent, "add_to_collection"):
                    parent.add_to_collection(a)
                if r in ("trace", "log") and len(p) == 1 and rng.random() < .5:
                    # what the contents use is not what the element uses
                    c = f.create_event() if r == "trace" else f.create_trace()
                    c.get_attributes()["in"] = make("in", "literal", extension("micro", own))
                    root.append(c)
                tree[p] = a
                ev["x"] = o[2]
            else:
                del parent.get_attributes()[p[-1]]
        elif op == "give":
            root.get_extensions().add(extension(o[1], own))
            ev["x"] = o[1]
        elif op == "take":
            root.get_extensions().discard(extension(o[1], own))
            ev["x"] = o[1]
        elif op == "spoil" and r != "log":
            got = root.get_extensions()
            if isinstance(got, set):
                got.add(extension("x3", own))
                got.discard(extension("concept", own))
        ev["all"] = [{"p": list(p), "got": [name(x) for x in node(p).get_extensions()]} for p in [()] + sorted(tree)]
        evs.append(ev)
    return evs
