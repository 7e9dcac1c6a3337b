import random

import gen
import snap
from vlib import enc

TR = "Tr_P30"
CHUNKS = 2
MC = [{"module": "MC_P30", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS OneType Typed FreshIds
PROPERTIES Pure
CHECK_DEADLOCK FALSE
""" % (6 if tier == "thorough" else 5)}]
RULE = ("every history of creating an attribute of each type, giving it nested attributes and children, changing its value and deriving prototypes (also of prototypes) "
        "the machine admits, and seeded attribute trees of every type, value and depth, up to 40 nested attributes, with changes of attribute and prototypes in between")
ASSUMPTIONS = ["the eight attribute classes themselves, no user-defined subclasses"]


def full(a, depth=0):
    """snap.snap_attr with the attribute map of collections too."""
    r = snap.snap_attr(a)
    r["m"] = {enc(k): full(v) for k, v in sorted(a.get_attributes().items())}
    if r["t"] in ("list", "container"):
        r["c"] = [full(c) for c in a.get_collection()]
    return r


def wide(rng):
    a = gen.tree(rng, 1)
    for i in range(rng.choice((5, 12, 40))):
        b = gen.tree(rng, 1, k="wide{}".format(i))
        (a["c"].append(b) if a["t"] in ("list", "container") and rng.random() < .5 else a["m"].update({b["k"]: b}))
    a["x"] = rng.choice(gen.STD)
    return a


def cases(ctx):
    rng = ctx.rng("p30")
    out = []
    hs = sorted(ctx.hist["MC_P30"], key=lambda h: (len(h), str(h)))
    for i, h in enumerate(hs):
        out.append({"id": "hist-{:05d}".format(i), "seed": i, "ops": h, "tree": None})
    for i, a in enumerate(gen.each_type()):
        out.append({"id": "value-{:04d}".format(i), "seed": i, "tree": a, "ops": [["derive", "0"], ["nest", ""], ["derive", "1"], ["nest", ""], ["nest", ""], ["derive", "0"]]})
    for i in range(ctx.n(300, 4000)):
        out.append({"id": "tree-{:05d}".format(i), "seed": i, "tree": wide(rng) if i % 20 == 0 else gen.tree(rng, 3, 3),
                    "ops": [["derive", "0"], ["nest", ""], ["derive", "1"], ["nest", ""], ["nest", ""], ["derive", "0"], ["nest", ""]]})
    return out


def execute(case):
    from opyenxes.utils.XAttributeUtils import XAttributeUtils
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["seed"])
    f, xs, evs = XFactory(), [], []

    def look(**ev):
        ev.update({"all": [full(a) for a in xs], "class": [getattr(XAttributeUtils.get_type(a), "__name__", "?") for a in xs],
                   "name": [XAttributeUtils.get_type_string(a) for a in xs]})
        evs.append(ev)

    if case["tree"]:
        xs.append(snap.build_attr(case["tree"], link=case["seed"] % 2 == 1))
        look(op="new", t=case["tree"]["t"])
    for n, (op, arg) in enumerate(case["ops"]):
        if op == "new":
            t = arg
            a = gen.tree(rng, 0, t=t)
            a["x"] = rng.choice(gen.STD + ["N"])
            xs.append(snap.build_attr(a))
            look(op="new", t=t)
            continue
        which = n % len(xs) if case["tree"] else 0
        a = xs[which]
        if op == "nest":
            b = snap.build_attr(gen.tree(rng, 1))
            a.get_attributes()[b.get_key()] = b
        elif op == "child":
            a.add_to_collection(snap.build_attr(gen.tree(rng, 1)))
        elif op == "set":
            t = snap.typ(a)
            v, d = gen.value(rng, t)
            a.set_value(snap.value_of(snap.attr("k", t, v, d)))
        elif op == "derive":
            xs.append(XAttributeUtils.derive_prototype(xs[int(arg)]))
            look(op="derive", i=int(arg) + 1)
            continue
        look(op=op, i=which + 1)
    return evs
