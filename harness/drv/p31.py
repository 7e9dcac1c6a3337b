"""Extended events."""
import random

import acc
import gen
import snap
from vlib import dec, enc

TR = "Tr_P31"
CHUNKS = 3
MC = [{"module": "MC_P31", "workers": 3, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Live Together
PROPERTIES CloneEqual CopyApart
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("histories of assignments through wrappers, assignments and direct changes of the events, wraps and clones up to the bound; seeded longer ones over all setters, several wrappers "
        "of several events, attribute maps replaced through wrapper and event, clones of clones; after each step every getter of every wrapper and every attribute of every event")
ASSUMPTIONS = ["an accessor's attribute stored directly has the accessor's type", "model references are not blank and hold no white space", "white space between stored references is not looked at"]
#       accessor: getter, setter
METHODS = {"name": ("get_name", "set_name"), "instance": ("get_instance", "set_instance"), "stamp": ("get_time_stamp", "set_time_stamp"), "resource": ("get_resourse", "set_resource"),
           "role": ("get_role", "set_role"), "group": ("get_group", "set_group"), "transition": ("get_transition", "set_transition"),
           "standard": ("get_standard_transition", "set_standard_transition"), "refs": ("get_model_references", "set_model_references"),
           "uris": ("get_model_references_uris", "set_model_references_uris")}


def cases(ctx):
    rng = ctx.rng("p31")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P31"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(1400, 20000)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(500, 6000)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    return out


def execute(case):
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["seed"])
    f = XFactory()
    small = case["ops"] is not None
    events, wraps, evs, vals, reach, held = [], [], [], [], [], {}
    for _ in range(1 if small else rng.randrange(1, 4)):
        e = f.create_event()
        if not small or rng.random() < .3:
            for _ in range(rng.randrange(0, 4)):
                a = snap.build_attr(acc.plain(rng))
                e.get_attributes()[a.get_key()] = a
        events.append(e)            # a copy's place holds its first wrapper
        reach.append(e)

    def look(**ev):
        ev["el"] = [acc.show(e.get_attributes()) for e in events]
        ev["wel"] = [acc.show(w.get_attributes()) for w, _ in wraps]
        ev["got"] = [{a: acc.answer(a, getattr(w, g)()) for a, (g, _) in METHODS.items()} for w, _ in wraps]
        ev["has"] = [w.has_attributes() for w, _ in wraps]
        ev["ex"] = [sorted(enc(x.get_prefix()) for x in w.get_extensions()) for w, _ in wraps]
        evs.append(ev)

    def wrap(i):
        e = events[i - 1]
        if isinstance(e, XExtendedEvent):
            return
        wraps.append((XExtendedEvent.wrap(e) if rng.random() < .7 else XExtendedEvent(e), i))
        look(op="wrap", i=i)

    def setby(n, a, k=None):
        v = acc.value(rng, a, k)
        d = acc.val(a, v)
        vals.append(d)
        getattr(wraps[n - 1][0], METHODS[a][1])(v)
        look(op="set", n=n, a=a, val=d)

    def assign(i, a, k=None):
        v = acc.value(rng, a, k)
        d = acc.val(a, v)
        vals.append(d)
        acc.assign(a, handle(i), v)
        look(op="assign", i=i, a=a, val=d)

    def handle(i):
        """The event itself or a wrapper of it."""
        ws = [w for w, j in wraps if j == i]
        return rng.choice(ws) if ws and rng.random() < .4 else events[i - 1]

    def replace(i, recs):
        from opyenxes.model.XAttributeMap import XAttributeMap
        m = XAttributeMap()
        for r in recs:
            m[dec(r["k"])] = snap.build_attr(r)
        shown = acc.show(m)
        if recs and rng.random() < .2:      # the map it has already
            m = handle(i).get_attributes()
            shown = acc.show(m)
        handle(i).set_attributes(m)
        held[i] = m
        look(op="replace", i=i, m=shown)

    def clone(n):
        w = wraps[n - 1][0].clone()
        events.append(w)
        wraps.append((w, len(events)))
        look(op="clone", n=n)
    look(op="begin")
    if small:
        real = {"name": rng.choice(("name", "instance", "resource", "role", "group", "transition", "refs", "uris")), "stamp": "stamp", "standard": "standard"}
        wrap(1)
        apart = {1: 1}
        for op in case["ops"]:
            if op[0] == "set":
                setby(op[1], real[op[2]], op[3])
            elif op[0] == "assign":
                assign(op[1], real[op[2]], op[3])
            elif op[0] == "clear":
                replace(op[1], [])
            elif op[0] == "wrap":
                e = events[op[1] - 1]
                if isinstance(e, XExtendedEvent):       # a copy: seen only through its wrapper
                    break
                wrap(op[1])
            else:
                clone(op[1])
    else:
        wrap(1)
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            i, n = rng.randrange(1, len(events) + 1), rng.randrange(1, len(wraps) + 1)
            m = held[i] if i in held and rng.random() < .5 else handle(i).get_attributes()
            if r < .4:
                setby(n, rng.choice(sorted(METHODS)))
            elif r < .55:
                assign(i, rng.choice(sorted(acc.KEY)))
            elif r < .65:
                rec = acc.plain(rng)
                m[dec(rec["k"])] = snap.build_attr(rec)
                look(op="put", i=i, k=rec["k"], at=acc.show(m)[rec["k"]])
            elif r < .72 and len(m):
                k = rng.choice(sorted(m))
                y = snap.build_attr(gen.tree(rng, 0))
                if snap.typ(m[k]) not in ("list", "container"):
                    m[k].get_attributes()[y.get_key()] = y
                    look(op="put", i=i, k=enc(k), at=acc.show(m)[enc(k)])
            elif r < .78 and len(m):
                k = rng.choice(sorted(m))
                del m[k]
                look(op="del", i=i, k=enc(k))
            elif r < .83:
                replace(i, [acc.plain(rng) for _ in range(rng.randrange(0, 4))] if rng.random() < .8 else
                        [snap.attr("w{}".format(j), "literal", "sx") for j in range(rng.choice((9, 20)))])
            elif r < .93 and len(wraps) < 6:
                wrap(i)
            elif len(wraps) < 6:
                clone(n)
    return {"ev": evs, "tx": acc.texts([m for e in evs for m in e["el"]], vals)}
