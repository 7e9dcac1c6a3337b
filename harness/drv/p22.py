"""Registries and singletons."""
import importlib
import random

TR = "Tr_P22"
CHUNKS = 1
MC = [{"module": "MC_P22", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS DefaultIn
PROPERTIES Grows Undisplaced AgainNothing
CHECK_DEADLOCK FALSE
""" % (6 if tier == "thorough" else 4)}]
RULE = ("every history of registrations and defaults in two registries up to the bound, on plain registries and on each of the factory, parser and serializer registries, "
        "with everything the registries show after each step; seeded orders of first and later access (class calls, and the extension manager's own lookups) to all 18 singletons, "
        "each in a fresh process with modules imported in that order, with registrations, parses and serializations in between")
ASSUMPTIONS = []
PARTS = {"XFactoryRegistry": "factory", "XParserRegistry": "data_in", "XSerializerRegistry": "data_out", "XExtensionManager": "extension", "XExtensionParser": "extension",
         "XIDFactory": "id", "XGlobalAttributeNameMap": "info", "XCostExtension": "extension.std", "XConceptExtension": "extension.std",
         "XIdentityExtension": "extension.std", "XLifecycleExtension": "extension.std", "XMicroExtension": "extension.std", "XOrganizationalExtension": "extension.std",
         "XSemanticExtension": "extension.std", "XTimeExtension": "extension.std", "XCostAmount": "", "XCostDriver": "", "XCostType": ""}
BY_PREFIX = {"cost": "XCostExtension", "concept": "XConceptExtension", "identity": "XIdentityExtension", "lifecycle": "XLifecycleExtension", "micro": "XMicroExtension",
             "org": "XOrganizationalExtension", "semantic": "XSemanticExtension", "time": "XTimeExtension"}


def cases(ctx):
    rng = ctx.rng("p22")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P22"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    for g, n in (("plain", ctx.n(1200, 12000)), ("factory", ctx.n(60, 900)), ("parser", ctx.n(60, 900)), ("serializer", ctx.n(60, 900))):
        for i, h in enumerate(rng.sample(hist, min(len(hist), n))):
            out.append({"id": "{}-{:05d}".format(g, i), "how": g, "ops": h, "seed": rng.randrange(10**9), "fork": g != "plain"})
    for i in range(ctx.n(60, 600)):
        n = 150 if i == 0 else rng.randrange(3, 20)
        ops = [[rng.choice(("register", "register", "default")), rng.randrange(1, 3), rng.randrange(1, n + 1)] for _ in range(2 * n if i else 180)]
        out.append({"id": "many-{:04d}".format(i), "how": "plain", "ops": ops, "seed": rng.randrange(10**9), "fork": False})
    for i in range(ctx.n(160, 1600)):
        out.append({"id": "single-{:04d}".format(i), "how": "single", "seed": rng.randrange(10**9), "fork": True})
    return out


def cls(name):
    part = PARTS[name]
    mod = "opyenxes.extension.std.XCostExtension" if not part else "opyenxes.{}.{}".format(part, name)
    return getattr(importlib.import_module(mod), name)


def execute(case):
    rng = random.Random(case["seed"])
    if case["how"] == "single":
        return singles(rng)
    evs = []
    if case["how"] == "plain":
        from opyenxes.utils.XRegistry import XRegistry
        regs, known = [], []
        for _ in range(2):
            regs.append(XRegistry())
            evs.append(look({"op": "vacant"}, regs, known))
        mine = [make(rng, "plain") for _ in range(max(x[2] for x in case["ops"]))]
        for op, n, i in case["ops"]:
            step(evs, op, n, mine[i - 1], regs, known)
        return evs
    name = {"factory": "XFactoryRegistry", "parser": "XParserRegistry", "serializer": "XSerializerRegistry"}[case["how"]]
    known = []
    evs.append(look({"op": "begin"}, [cls(name)()], known))
    other = [x for x in PARTS if x.endswith("Registry") and x != name]
    mine = [make(rng, case["how"]) for _ in range(3)]
    mine[2] = rng.choice(list(cls(name)().get_available()))
    for op, n, i in case["ops"]:
        if n == 2:      # another registry changes meanwhile
            o = cls(rng.choice(other))()
            (o.register if op == "register" else o.set_current_default)(make(rng, "plain"))
            evs.append(look({"op": "register", "n": 1, "i": number(cls(name)().current_default(), known)}, [cls(name)()], known))
        else:
            step(evs, op, 1, mine[i - 1], [cls(name)()], known)
    return evs


class Empty:
    """An instance that tests false."""
    def __len__(self):
        return 0


def make(rng, kind):
    if kind == "factory":
        from opyenxes.factory.XFactory import XFactory
        return XFactory()
    if kind == "parser":
        return getattr(importlib.import_module("opyenxes.data_in." + (n := rng.choice(("XesXmlParser", "XMxmlParser", "XesXmlGZIPParser", "XMxmlGZIPParser")))), n)()
    if kind == "serializer":
        return getattr(importlib.import_module("opyenxes.data_out." + (n := rng.choice(("XesXmlSerializer", "XMxmlSerializer", "XesXmlGZIPSerializer", "XMxmlGZIPSerializer")))), n)()
    return rng.choice((object, Empty, Empty, lambda: frozenset([rng.random()]), lambda: (rng.random(), 1), lambda: "i{}".format(rng.random())))()


def number(o, known):
    if o is None:
        return 0
    for i, x in enumerate(known, 1):
        if x is o:
            return i
    known.append(o)
    return len(known)


def look(ev, regs, known):
    shown = []
    for r in regs:
        avail = [number(x, known) for x in r.get_available()]
        shown.append({"avail": avail, "cur": number(r.current_default(), known)})
    for r, s in zip(regs, shown):
        s["has"] = [i for i, x in enumerate(known, 1) if x in r]
    ev["shown"] = shown
    return ev


def step(evs, op, n, inst, regs, known):
    i = number(inst, known)
    if op == "register":
        regs[n - 1].register(inst)
    else:
        regs[n - 1].set_current_default(inst)
    evs.append(look({"op": op, "n": n, "i": i}, regs, known))


def singles(rng):
    names = sorted(PARTS)
    rng.shuffle(names)
    todo = names + [rng.choice(names) for _ in range(rng.randrange(10, 30))]
    if rng.random() < .5:
        rng.shuffle(todo)
    objs, evs = [], []

    def got(name, o):
        evs.append({"op": "obtain", "name": name, "obj": number(o, objs), "class": type(o).__name__})
    for name in todo:
        got(name, cls(name)())
        r = rng.random()
        if r < .1:
            m = cls("XExtensionManager")()
            p = rng.choice(sorted(BY_PREFIX))
            got(BY_PREFIX[p], m.get_by_prefix(p))
            got("XExtensionManager", m)
        elif r < .15:
            m = cls("XExtensionManager")()
            for i in range(8):
                x = m.get_by_index(i)
                got(BY_PREFIX[x.get_prefix()], x)
        elif r < .25:
            cls("XFactoryRegistry")().set_current_default(make(rng, "factory"))
        elif r < .35:
            work(rng)
    return evs


def work(rng):
    import io
    import gen
    import snap
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    b = io.BytesIO()
    XesXmlSerializer().serialize(snap.build_log(gen.log(rng, traces=1, events=1)), b, True)
    XesXmlParser().parse(io.BytesIO(b.getvalue()))
