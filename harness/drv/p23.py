"""The extension manager and the attributes of extensions."""
import random

from vlib import enc

TR = "Tr_P23"
CHUNKS = 2
FORK = True
MC = [{"module": "MC_P23", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS OnePerUri Inverse
PROPERTIES Replaced
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every history of registrations of four extensions (two sharing a URI, one overriding a standard one) and of changes of their levels up to the bound; seeded longer "
        "histories over 12 extensions with prefix-related names, other-case and near URIs; after each step every lookup by URI, name, prefix and index of everything known and "
        "of unknown, empty, near and out-of-range values, and the levels of all extensions; 70 and 130 extensions at once; each in a fresh process")
ASSUMPTIONS = ["when several registered extensions share a name or prefix, a lookup may answer any of them", "replaced extensions are not looked up by object"]
STD = "http://www.xes-standard.org/{}.xesext"


def cases(ctx):
    rng = ctx.rng("p23")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P23"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(260, 1500)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(4, 24)):
        out.append({"id": "many-{:04d}".format(i), "ops": "many", "seed": rng.randrange(10**9)})
    for i in range(ctx.n(60, 400)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    return out


def execute(case):
    from urllib.parse import urlparse
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.factory.XFactory import XFactory
    rng = random.Random(case["seed"])
    f = XFactory()
    known, made, evs = [], [], []

    def number(o):
        if o is None:
            return 0
        for i, x in enumerate(known, 1):
            if x is o:
                return i
        known.append(o)
        return len(known)
    many = case["ops"] == "many"
    if many:
        pool = [("http://x.org/m{}.xesext".format(i), "many {}".format(i), "m{}".format(i)) for i in range(rng.choice((70, 130)))]
    elif case["ops"] is not None:
        std = STD.format(rng.choice(("concept", "time", "cost", "semantic")))
        pool = [("http://x.org/u1.xesext", "n1", "p1"), ("http://x.org/u1.xesext", "n2", "p2"), ("http://x.org/u2.xesext", "n3", "p3"), (std, "n4", "p4")]
    else:
        pool = [("http://x.org/{}.xesext".format(rng.choice(("a", "b", "A", "aa", "a/b", "a?q=1", "a#f"))), rng.choice(("Concept ", "concept", "conc", "X", "x", "", " X", "x ", "\u00e4", "N{}".format(i))),
                 rng.choice(("con", "concept:", "Concept", "y", "", " y", "y ", "p{}".format(i), "q{}".format(i)))) for i in range(10)]
        pool += [(STD.format(n), rng.choice(("Mine", "Concept")), rng.choice(("mine", n))) for n in rng.sample(["concept", "org", "micro", "lifecycle"], 2)]
        pool += [(STD.format("concept").replace("http", "https"), "Secure", "sec")]
    uris = [STD.format(x) for x in ("concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time")]
    names = ["Concept", "Cost", "Identity", "Lifecycle", "Micro", "Organizational", "Semantic", "Time"]
    prefixes = ["concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time"]

    def look(**ev):
        m = XExtensionManager()
        us = uris + sorted({p[0] for p in pool}) + ["", "http://www.xes-standard.org/Concept.xesext", "concept"]
        ns = names + sorted({p[1] for p in pool}) + ["", "concept", "Conc", "Time "]
        ps = prefixes + sorted({p[2] for p in pool}) + ["", "Concept", "conc", "concept:name", "t"]
        n = 8 + len(pool)
        ix = list(range(-3, n + 2)) + [10**6, -10**6]
        brief = many and ev["op"] != "look"
        if brief:
            us, ns, ps, ix, n = us[-9:-3], ns[-9:-3], ps[-9:-3], ix[:3], 3
        if len(evs) > 2 and case["ops"] is None and not many:
            us, ns, ps = (rng.sample(x, min(len(x), 10)) for x in (us, ns, ps))
        probe = XExtension("probe", "probe", urlparse("http://nowhere.org/probe.xesext"))
        index = [[u, m.get_index(XExtension("other", "other", urlparse(u)))] for u in us] + [["none", m.get_index(probe)]]
        index += [[x.get_uri().geturl(), m.get_index(x)] for x in (m.get_by_index(i) for i in range(n + 1)) if x is not None]
        ev["shown"] = {"uri": [[enc(u), number(m.get_by_uri(urlparse(u)))] for u in us], "name": [[enc(x), number(m.get_by_name(x))] for x in ns],
                       "prefix": [[enc(x), number(m.get_by_prefix(x))] for x in ps], "at": [[i, number(m.get_by_index(i))] for i in ix],
                       "index": [[enc(u), i] for u, i in index]}
        ev["defs"] = [{"levels": [sorted(map(token, s)) for s in levels(x)], "all": sorted(map(token, x.get_defined_attributes()))} for x in made]
        evs.append(ev)

    def levels(x):
        return [x.get_log_attributes(), x.get_trace_attributes(), x.get_event_attributes(), x.get_meta_attributes()]

    def token(a):
        return "{} {} {}".format(enc(a.get_key()), type(a).__name__, enc(str(a)))
    m = XExtensionManager()
    std = []
    i = 0
    while m.get_by_index(i) is not None and i < 50:
        x = m.get_by_index(i)
        number(x)
        std.append([enc(x.get_name()), enc(x.get_prefix()), enc(x.get_uri().geturl())])
        i += 1
    look(op="begin", std=std)
    for u, n, p in pool:
        made.append(XExtension(n, p, urlparse(u)))
        number(made[-1])
        if len(made) == len(pool) or rng.random() < .3 and not many:
            for _ in range(len(made) - sum(e["op"] == "make" for e in evs) - 1):
                evs.append({"op": "make", "shown": evs[0]["shown"], "defs": [{"levels": [[], [], [], []], "all": []}] * (1 + sum(e["op"] == "make" for e in evs))})
            look(op="make")
    attrs = {"a": lambda: f.create_attribute_literal("p:a", "DEFAULT", made[0]), "b": lambda: f.create_attribute_discrete("p:a", 0, made[0])}
    more = [lambda: f.create_attribute_literal("p:b", "DEFAULT", made[0]), lambda: f.create_attribute_timestamp("p:t", 0), lambda: f.create_attribute_boolean("p:a", False, made[1]),
            lambda: f.create_attribute_literal("p:a", "x"), lambda: f.create_attribute_list("p:l"), lambda: f.create_attribute_continuous("p:a", 0.0)]
    ops = case["ops"]
    if many:
        ops = [["reg", i + 1] for i in range(len(pool))]
        ops += [["look"]] + [["put", 5, n, "#{}".format(i)] for i in range(6) for n in range(1, 5)] + [["look"]]
    elif ops is None:
        ops = []
        for _ in range(rng.randrange(6, 20)):
            r = rng.random()
            ops.append(["reg", rng.randrange(len(pool)) + 1] if r < .5 else [rng.choice(("put", "put", "take")), rng.randrange(len(pool)) + 1, rng.randrange(1, 5), rng.choice("abcdefgh")])
    for op in ops:
        if op[0] == "look":
            look(op="look")
            continue
        x = made[op[1] - 1]
        if op[0] == "reg":
            m.register(x)
            u, n, p = pool[op[1] - 1]
            look(op="reg", x={"uri": enc(u), "name": enc(n), "prefix": enc(p), "obj": number(x)})
            continue
        a = f.create_attribute_discrete("p:{}-{}".format(op[2], op[3]), 0, x) if op[3][0] == "#" else attrs[op[3]]() if op[3] in attrs else more["cdefgh".index(op[3])]()
        s = levels(x)[op[2] - 1]
        if op[0] == "put":
            s.add(a)
        else:
            s.discard(a)
        look(op=op[0], i=op[1], n=op[2], a=token(a))
    return evs
