"""Definitions of the standard extensions."""
import importlib
import random
from urllib.parse import urlparse

import acc
import gen
import snap
from vlib import enc

TR = "Tr_P33"
CHUNKS = 2
FORK = True
MC = [{"module": "MC_P33", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Unique Prefixed Placed Named
PROPERTIES Stays
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every order of obtaining the standard extensions directly, or all through the manager, up to the bound, and seeded longer ones, each in a fresh process, with other work in "
        "between: accessors on elements, changed and deleted attributes, derived prototypes and clones, documents read and written, summaries, names mapped and registered for "
        "other attributes, extensions of the same name or prefix registered, other factories in force; after each step all that the obtained extensions show")
ASSUMPTIONS = ["the sets and prototypes an extension gives are not changed by the caller", "any initial identity will do"]
CLASS = {"concept": "Concept", "cost": "Cost", "identity": "Identity", "lifecycle": "Lifecycle", "micro": "Micro", "org": "Organizational", "semantic": "Semantic", "time": "Time"}


def cases(ctx):
    rng = ctx.rng("p33")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P33"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    for i, h in enumerate(rng.sample(hist, min(len(hist), ctx.n(260, 4000)))):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(100, 1500)):
        ops = [rng.choice(sorted(CLASS) + ["manager"] + ["use"] * 12) for _ in range(rng.randrange(4, 14))]
        out.append({"id": "long-{:04d}".format(i), "ops": ops, "seed": rng.randrange(10**9)})
    return out


def obtain(p):
    n = "X{}Extension".format(CLASS[p])
    return getattr(importlib.import_module("opyenxes.extension.std." + n), n)()


def rows(x, attrs):
    out = []
    for a in sorted(attrs, key=lambda a: str(a.get_key())):
        s = snap.snap_attr(a)
        e = a.get_extension()
        out.append({"k": s["k"], "t": s["t"], "v": s["v"], "d": s["d"], "x": enc(x.get_prefix()), "own": enc(e.get_prefix()) if e is x else "other", "nested": len(s["m"]) + len(s["c"])})
    return out


def show(found):
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    out, names = [], []
    for p, x in sorted(found.items()):
        proto = [getattr(x, n) for n in sorted(dir(x)) if n.startswith("ATTR_")]
        out.append({"prefix": p, "says": enc(x.get_prefix()), "name": enc(x.get_name()), "uri": enc(x.get_uri().geturl()), "proto": rows(x, proto),
                    "defined": rows(x, x.get_defined_attributes()),
                    "at": {lv: rows(x, getattr(x, "get_{}_attributes".format(lv))()) for lv in ("log", "trace", "event", "meta")}})
        for lang in ("EN", "DE", "FR", "ES", "PT"):
            m = XGlobalAttributeNameMap().get_mapping(lang)
            for a in proto:
                names.append([lang, enc(a.get_key()), enc(m.map(a.get_key()))])
    return {"shown": out, "names": names}


def execute(case):
    rng = random.Random(case["seed"])
    found, evs, els = {}, [], []
    for op in case["ops"]:
        if op == "manager":
            from opyenxes.extension.XExtensionManager import XExtensionManager
            m = XExtensionManager()
            for i, p in enumerate(("concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time")):
                found[p] = obtain(p) if rng.random() < .5 else m.get_by_uri(urlparse("http://www.xes-standard.org/{}.xesext".format(p))) if rng.random() < .5 else m.get_by_index(i)
            evs.append(dict(show(found), op="manager"))
        elif op == "use":
            for _ in range(rng.randrange(1, 5)):
                use(rng, found, els)
            evs.append(dict(show(found), op="use"))
        else:
            found[op] = obtain(op)
            evs.append(dict(show(found), op="obtain", x=op))
    return evs


def use(rng, found, els):
    import io
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    from opyenxes.utils.XAttributeUtils import XAttributeUtils
    what = rng.choice(("element", "assign", "assign", "assign", "change", "change", "derive", "xes", "mxml", "sum", "name", "other", "factory", "clone", "nested"))
    f = XFactory()
    if what == "element" or not els:
        els.append(rng.choice((f.create_log, f.create_trace, f.create_event, f.create_event, lambda: f.create_attribute_literal("x", "")))())
    el = rng.choice(els)
    held = [a for e in els for a in e.get_attributes().values()]
    mine = [a for a in sorted(acc.KEY) if acc.KEY[a].split(":")[0] in found]
    if what == "assign" and mine:
        for a in rng.choices(mine, k=rng.randrange(1, 6)):
            v = acc.value(rng, a)
            if rng.random() < .4:  # the value the definition itself has
                p = [y for y in found[acc.KEY[a].split(":")[0]].get_defined_attributes() if y.get_key() == acc.KEY[a]][0]
                v = [p.get_value()] if a == "refs" else v if a == "uris" else p.get_value()
            acc.assign(a, el, v)
            y = el.get_attributes().get(acc.KEY[a])
            if y is not None and rng.random() < .5:
                change(rng, f, y)
            if rng.random() < .3:
                acc.extract(a, el)
            if rng.random() < .1 and a in ("level", "length", "parent"):
                acc.remove(a, el)
    elif what == "change" and held:
        change(rng, f, rng.choice(held))
    elif what == "nested" and "cost" in found:
        found["cost"].assign_nested_amounts(el, {("a", "b"): 2.0, ("a",): 1.0})
    elif what == "derive":
        for x in found.values():
            for a in list(x.get_defined_attributes()) + [getattr(x, n) for n in dir(x) if n.startswith("ATTR_")]:
                b = rng.choice((XAttributeUtils.derive_prototype, lambda a: a.clone()))(a)
                b.get_attributes()["spoilt"] = f.create_attribute_boolean("spoilt", True)
                if snap.typ(b) == "literal":
                    b.set_value("spoilt")
                XAttributeUtils.get_type_string(a)
    elif what == "clone":
        els.append(el.clone())
    elif what == "factory":
        class Mine(XFactory):
            def create_attribute_literal(self, key, value, extension=None):
                return super().create_attribute_literal(key, value, extension)
        XFactoryRegistry().set_current_default(Mine())
    elif what in ("xes", "mxml", "sum"):
        from opyenxes.data_in.XesXmlParser import XesXmlParser
        from opyenxes.data_in.XMxmlParser import XMxmlParser
        from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
        from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
        from opyenxes.info.XLogInfoFactory import XLogInfoFactory
        log = snap.build_log(gen.log(rng, traces=1, events=2))
        b = io.BytesIO()
        if what == "xes":
            XesXmlSerializer().serialize(log, b, True)
            XesXmlParser().parse(io.BytesIO(b.getvalue()))
        elif what == "mxml":
            XMxmlSerializer().serialize(log, b, True)
            XMxmlParser().parse(io.BytesIO(b.getvalue()))
        else:
            XLogInfoFactory.create_log_info(log)
    elif what == "name":
        from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
        g = XGlobalAttributeNameMap()
        g.register_mapping(rng.choice(("EN", "DE", "NL", "XX")), rng.choice(("k", "concept:names", "concept", "time:")), "alias")
        g.map_safely(rng.choice(("k", "concept:name")), rng.choice(("EN", "DE", "nowhere")))
        g.get_mapping("PL")
    elif what == "other":
        from opyenxes.extension.XExtension import XExtension
        from opyenxes.extension.XExtensionManager import XExtensionManager
        x = XExtension(rng.choice(("Concept", "Mine")), rng.choice(("concept", "time", "mine")), urlparse("http://own.example/{}.xesext".format(rng.randrange(3))))
        x.get_event_attributes().add(f.create_attribute_literal("concept:name", "mine", x))
        x.get_meta_attributes().add(f.create_attribute_discrete("mine:a", 1, x))
        XExtensionManager().register(x)


def change(rng, f, a):
    t = snap.typ(a)
    if t in ("literal", "discrete", "continuous", "id", "timestamp", "boolean"):
        a.set_value({"literal": "changed", "discrete": 77, "continuous": 7.5, "id": new_id(), "boolean": False, "timestamp": snap.to_datetime([2001, 2, 3, 4, 5, 6, 0, 0])}[t])
    a.get_attributes()["more"] = f.create_attribute_discrete("more", 1)


def new_id():
    from opyenxes.id.XID import XID
    return XID()
