"""Accessors of the standard extensions."""
import random

import acc
import gen
import snap
from vlib import dec, enc

TR = "Tr_P26"
CHUNKS = 4
MC = [{"module": "MC_P26", "workers": 3, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS StandardKnown Typed
PROPERTIES ReadBack Ignored OthersStay AbsentAfterRemoval
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("histories of assignments (two good values and one to be ignored per accessor kind), removals and direct changes on two elements up to the bound; seeded longer ones over all "
        "twenty accessors and elements of every kind (log, trace, event, attribute), values of every sort, attributes stored, changed, nested or deleted directly in between; after "
        "each step every element whole, every accessor on the element concerned and another, and the extensions' prototypes")
ASSUMPTIONS = ["an accessor's attribute stored directly has the accessor's type (a timestamp may also be a text)", "model references are not blank and hold no white space",
               "levels, lengths, times, references and standard transitions given are not missing", "white space between stored references is not looked at"]


def cases(ctx):
    rng = ctx.rng("p26")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P26"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(1600, 20000)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(500, 6000)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    return out


def element(rng, small):
    from opyenxes.factory.XFactory import XFactory
    f = XFactory()
    o = rng.choice((f.create_log, f.create_trace, f.create_event, f.create_event, lambda: f.create_attribute_literal("x", ""), lambda: f.create_attribute_continuous("y", 1.0)))()
    if not small:
        for _ in range(rng.randrange(0, 4)):
            a = snap.build_attr(acc.plain(rng))
            o.get_attributes()[a.get_key()] = a
    return o


def prototypes():
    out = []
    for a in ("name", "resource", "total", "id", "model", "level", "refs", "stamp"):
        x = acc.ext(a)
        for n in sorted(dir(x)):
            if n.startswith("ATTR_"):
                out.append([n, snap.snap_attr(getattr(x, n))])
        for s in (x.get_log_attributes(), x.get_trace_attributes(), x.get_event_attributes(), x.get_meta_attributes()):
            out.append(sorted((snap.snap_attr(y) for y in s), key=str))
    return snap.digest(out)


def execute(case):
    rng = random.Random(case["seed"])
    small = case["ops"] is not None
    els = [element(rng, small) for _ in range(2 if small else rng.randrange(1, 4))]
    evs, vals = [], []
    uses = acc.ext("model").uses_standard_model

    def look(where, **ev):
        if rng.random() < .3 or ev["op"] == "begin":
            other = [j for j in range(1, len(els) + 1) if j != where]
            at = [where] + other[:1]
        else:
            at = [where]
        ev["got"] = [[j, {a: acc.answer(a, acc.extract(a, els[j - 1])) for a in acc.KEY}, int(uses(els[j - 1]) is True)] for j in at]
        ev["el"] = [acc.show(e.get_attributes()) for e in els]
        ev["proto"] = prototypes()
        evs.append(ev)

    def give(i, a, n=None):
        v = acc.value(rng, a, n)
        d = acc.val(a, v)
        acc.assign(a, els[i - 1], v)
        vals.append(d)
        look(i, op="assign", i=i, a=a, val=d)

    def shown(i, key):
        return acc.show(els[i - 1].get_attributes())[enc(key)]

    def poke(i, key):
        """Change the stored attribute itself."""
        a = els[i - 1].get_attributes()[key]
        t = snap.typ(a)
        if t in ("list", "container") or rng.random() < .4:
            y = snap.build_attr(gen.tree(rng, 0))
            a.get_attributes()[y.get_key()] = y
            if t in ("list", "container"):
                return
        elif key == "semantic:modelReference":
            a.set_value(" ".join(acc.words(rng)))
        else:
            v, d = gen.value(rng, t)
            a.set_value(snap.value_of(snap.attr("k", t, v, d)))
        look(i, op="set", i=i, k=enc(key), at=shown(i, key))
    look(1, op="begin")
    if small:
        # the accessors that stand for the kinds
        real = {"name": rng.choice(acc.TEXTS), "transition": rng.choice(("transition", "model")), "amount": rng.choice(("amount", "total")), "refs": rng.choice(("refs", "uris")),
                "parent": "parent", "level": "level", "length": "length", "stamp": "stamp", "standard": "standard"}
        for op in case["ops"]:
            a = real[op[2]]
            if op[0] == "assign":
                give(op[1], a, op[3])
            elif op[0] == "remove":
                acc.remove(a, els[op[1] - 1])
                look(op[1], op="remove", i=op[1], a=a)
            elif acc.KEY[a] in els[op[1] - 1].get_attributes():
                poke(op[1], acc.KEY[a])
    else:
        favourites = rng.sample(sorted(acc.KEY), 4)
        for _ in range(rng.randrange(4, 16)):
            i = rng.randrange(1, len(els) + 1)
            m = els[i - 1].get_attributes()
            r = rng.random()
            if r < .55:
                give(i, rng.choice(favourites) if rng.random() < .6 else rng.choice(sorted(acc.KEY)))
            elif r < .65:
                a = rng.choice(("level", "length", "parent"))
                acc.remove(a, els[i - 1])
                look(i, op="remove", i=i, a=a)
            elif r < .75:
                rec = acc.plain(rng)
                m[dec(rec["k"])] = snap.build_attr(rec)
                look(i, op="set", i=i, k=rec["k"], at=shown(i, dec(rec["k"])))
            elif r < .9 and len(m):
                poke(i, rng.choice(sorted(m)))
            elif len(m):
                k = rng.choice(sorted(m))
                del m[k]
                look(i, op="del", i=i, k=enc(k))
    return {"ev": evs, "tx": acc.texts([m for e in evs for m in e["el"]], vals)}
