"""Seeded generators of log recipes (see snap.py)."""
import calendar
import struct
import uuid

from snap import attr, amap, NAIVE, empty_log, CUSTOM
from vlib import enc

TYPES = ["literal", "timestamp", "discrete", "continuous", "boolean", "id", "list", "container"]
STD = ["concept", "lifecycle", "org", "time", "semantic", "identity", "cost", "micro"]
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:/ "
ODD = "<>&\"'=;,%\\#$@!?()[]{}|~^`*+\u00e4\u00df\u00e9\u03a9\u0416\u4e2d\u65e5\U0001f600\u00a0\u0085\u2028\ufffd"
LITERALS = ["", " ", "a", "x y", " lead", "trail ", "true", "12", "1.5", "None", "UNKNOWN", "<a b=\"c\">&amp;</a>", "&", "'q'",
            "\"", "]]>", "<!-- -->", "\u00e4\u00f6\u00fc\u00df", "\u4e2d\u6587", "\U0001f600", "a" * 300, "2017-01-01T00:00:00Z", "\\n", "%41;", "a\u0085b", "\u2028x\u2029"]
INTS = [0, 1, -1, 7, -42, 2**31 - 1, 2**31, -2**31, 2**53 + 1, 2**63 - 1, -2**63, 10**20, 10**50]
FLOATS = ["0.0", "-0.0", "1.0", "-1.5", "0.1", "1e+16", "1e-07", "1e+300", "5e-324", "1.7976931348623157e+308", "3.141592653589793",
          "2.5", "123456789.12345679", "inf", "-inf", "nan", "1e+22"]
KEYS = ["a", "b", "key", "concept:name", "org:resource", "time:timestamp", "lifecycle:transition", "cost:total", "x:y", "no prefix",
        "\u00e4", "k<>&\"'", ":", "a:", ":a", "a:b:c", "unknown:key", "Concept:name", "concept", "org:x:y", "cost:unit:x:y", "time:", "identity:id", "value", "1", "description", "source", "program"]
STDCL = [["Event Name", ["concept:name"]], ["Resource", ["org:resource"]], ["Lifecycle transition", ["lifecycle:transition"]],
         ["(Event Name AND Resource)", ["concept:name", "org:resource"]], ["(Lifecycle transition)", ["lifecycle:transition"]],
         ["(Event Name AND Resource AND Lifecycle transition)", ["concept:name", "lifecycle:transition", "org:resource"]]]
OFFS = [NAIVE, 0, 60, -60, 330, -210, 345, 840, -720, -30, 1, 1439, -1439]


def text(rng, n=12, line_breaks=False):
    alpha = PLAIN * 2 + ODD + ("\n\t\r" * 3 if line_breaks else "")
    return "".join(rng.choice(alpha) for _ in range(rng.randrange(0, n)))


def key(rng):
    r = rng.random()
    if r < 0.75:
        return rng.choice(KEYS)
    return text(rng, 9) or "k"


def stamp(rng, micros=True):
    y = rng.choice((rng.randrange(1970, 2040), rng.randrange(2, 9999)))
    m = rng.randrange(1, 13)
    us = rng.choice((0, 1000 * rng.randrange(1000), rng.randrange(1000000) if micros else 5000))
    return [y, m, rng.randrange(1, calendar.monthrange(y, m)[1] + 1), rng.randrange(24), rng.randrange(60), rng.randrange(60), us,
            rng.choice(OFFS + [rng.randrange(-1439, 1440)])]


def value(rng, t, line_breaks=False):
    """(tagged value, datetime fields)"""
    if t == "literal":
        return "s" + enc(rng.choice(LITERALS) if rng.random() < .4 else text(rng, 20, line_breaks)), ()
    if t == "discrete":
        return "i" + str(rng.choice(INTS) if rng.random() < .6 else rng.randrange(-10**6, 10**6)), ()
    if t == "continuous":
        r = rng.random()
        if r < .5:
            return "f" + rng.choice(FLOATS), ()
        if r < .8:
            return "f" + repr(rng.uniform(-1e6, 1e6)), ()
        f = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
        return "f" + repr(f), ()
    if t == "boolean":
        return rng.choice(("btrue", "bfalse")), ()
    if t == "id":
        return "u" + str(uuid.UUID(int=rng.choice((0, 2**128 - 1, rng.getrandbits(128), rng.getrandbits(128))))), ()
    if t == "timestamp":
        return "d", stamp(rng)
    return "", ()


def prefix_ext(k):
    """The extension a key's prefix names, or none."""
    p = k.split(":")[0] if ":" in k else None
    return p if p in STD + CUSTOM else "N"


def tree(rng, depth, width=3, k=None, t=None, **kw):
    k = key(rng) if k is None else k
    t = t or rng.choice(TYPES)
    v, d = value(rng, t, **kw)
    a = attr(k, t, v, d, prefix_ext(k))
    if depth > 0:
        n = rng.choice((0, 0, 1, rng.randrange(0, width + 1)))
        kids = [tree(rng, depth - 1, width, **kw) for _ in range(n)]
        if t in ("list", "container"):
            a["c"] = kids
        else:
            a["m"] = amap(*kids)
    return a


def amap_of(rng, n, depth, **kw):
    return amap(*[tree(rng, rng.randrange(0, depth + 1), **kw) for _ in range(n)])


def log(rng, traces=3, events=3, attrs=3, depth=2, **kw):
    r = empty_log()
    r["m"] = amap_of(rng, rng.randrange(attrs + 1), depth, **kw)
    r["ex"] = sorted(rng.sample(STD, rng.randrange(0, 9)))
    r["gt"] = list(amap_of(rng, rng.randrange(0, 3), depth, **kw).values())
    r["ge"] = list(amap_of(rng, rng.randrange(0, 4), depth, **kw).values())
    for _ in range(rng.randrange(0, 3)):
        if rng.random() < .25:
            r["cl"].append([enc(x) if isinstance(x, str) else [enc(y) for y in x] for x in rng.choice(STDCL)])
            continue
        name = text(rng, 10).replace("'", "").strip() or "Event Name"
        ks = [x for x in ((key(rng).replace("'", "").strip() or "k") for _ in range(rng.randrange(1, 4)))]
        ks = [" ".join(x.split()) for x in ks]
        r["cl"].append([enc(name), [enc(x) for x in ks if x]])
    for _ in range(rng.randrange(traces + 1)):
        r["tr"].append({"m": amap_of(rng, rng.randrange(attrs + 1), depth, **kw),
                        "ev": [{"m": amap_of(rng, rng.randrange(attrs + 1), depth, **kw)} for _ in range(rng.randrange(events + 1))]})
    return r


def each_type(depth=0):
    """One attribute of each type with every interesting value."""
    out = []
    for s in LITERALS:
        out.append(attr("k", "literal", "s" + enc(s)))
    for i in INTS:
        out.append(attr("k", "discrete", "i" + str(i)))
    for f in FLOATS:
        out.append(attr("k", "continuous", "f" + f))
    out += [attr("k", "boolean", "btrue"), attr("k", "boolean", "bfalse"), attr("k", "list"), attr("k", "container")]
    for u in (0, 1, 2**128 - 1, 0x1234567890abcdef1234567890abcdef):
        out.append(attr("k", "id", "u" + str(uuid.UUID(int=u))))
    for o in OFFS:
        for base in ([2017, 1, 1, 0, 0, 0, 0], [2016, 2, 29, 23, 59, 59, 999000], [1969, 12, 31, 12, 0, 0, 1000], [2000, 6, 15, 1, 2, 3, 45678], [9998, 12, 31, 5, 6, 7, 890000]):
            out.append(attr("k", "timestamp", "d", base + [o]))
    return out


def large_log(rng, i, deep=25):
    """Logs that are deep, wide or long in one respect."""
    r = empty_log()

    def small(k=None):
        return tree(rng, 0, k=k)
    if i % 4 == 0:
        a = small("end")
        for n in range(rng.randrange(5, deep)):
            t = rng.choice(("list", "container", "literal", "discrete", "boolean"))
            v, d = value(rng, t)
            a = attr("n%d" % n, t, v, d, "N", m=amap(a, small("x")) if t not in ("list", "container") else {}, c=[small("x"), a] if t in ("list", "container") else ())
        r["tr"] = [{"m": {}, "ev": [{"m": amap(a)}]}]
        if rng.random() < .5:
            r["ge"] = [a]
    elif i % 4 == 1:
        r["tr"] = [{"m": {}, "ev": [{"m": amap(small("concept:name"))} for _ in range(rng.randrange(10, 60))]}]
    elif i % 4 == 2:
        r["tr"] = [{"m": amap(small("n")), "ev": [{"m": amap(small("k"))} for _ in range(rng.randrange(2))]} for _ in range(rng.randrange(10, 40))]
    else:
        t = "".join(text(rng, 20) for _ in range(rng.choice((60, 600))))
        r["m"] = amap(attr("many", rng.choice(("list", "container")), c=[small("c%d" % rng.randrange(30)) for _ in range(rng.randrange(10, 60))]),
                      attr("nest", "literal", "s", m=amap(*[small("m%d" % n) for n in range(rng.randrange(10, 60))])), attr("long", "literal", "s" + enc(t)))
        r["gt"] = [small("g%d" % n) for n in range(rng.randrange(14))]
        r["cl"] = [[enc("c%d" % (n % 9)), [enc("k%d" % m) for m in range(rng.randrange(1, 15))]] for n in range(rng.randrange(14))]
    return r


def long_logs(rng):
    """Logs with very many events, traces, attributes, children, classifiers or globals."""
    def a(k, v):
        return attr(k, "literal", "s%d" % v)
    out = []
    g = empty_log()
    g["tr"] = [{"m": {}, "ev": [{"m": amap(a("k", i))} for i in range(rng.randrange(1100, 1300))]}]
    out.append(g)
    g = empty_log()
    g["tr"] = [{"m": {}, "ev": [{"m": amap(a("k", i))}] if i % 3 else []} for i in range(rng.randrange(260, 330))]
    out.append(g)
    g = empty_log()
    g["m"] = amap(*[a("k%d" % i, i) for i in range(rng.randrange(300, 400))])
    g["tr"] = [{"m": amap(*[a("k%d" % i, i) for i in range(150)]), "ev": [{"m": amap(*[a("k%d" % i, i) for i in range(150)])}]}]
    out.append(g)
    g = empty_log()
    g["m"] = amap(attr("l", "list", c=[a("k%d" % (i % 200), i) for i in range(300)]), attr("o", "container", c=[a("k%d" % i, i) for i in range(300)]),
                  attr("n", "discrete", "i1", m=amap(*[a("k%d" % i, i) for i in range(300)])))
    out.append(g)
    g = empty_log()
    g["gt"] = [a("g%d" % i, i) for i in range(130)]
    g["ge"] = [a("h%d" % i, i) for i in range(130)]
    g["cl"] = [[enc("c%d" % i), [enc("k%d" % j) for j in range(1 + i % 3)]] for i in range(120)] + [[enc("wide"), [enc("key %d" % j) for j in range(150)]]]
    out.append(g)
    return out


def custom_logs(rng):
    """Logs that use extensions of the application's own, next to the standard ones."""
    out = []
    for n in (1, 5, 9, len(CUSTOM)):
        ps = rng.sample(CUSTOM, n)
        g = empty_log()
        g["ex"] = sorted(ps + rng.sample(STD, rng.randrange(9)))
        g["m"] = amap(*[tree(rng, 1, k=p + ":a") for p in ps])
        g["ge"] = [tree(rng, 0, k=p + ":b") for p in ps]
        g["tr"] = [{"m": amap(*[tree(rng, 0, k=p + ":c") for p in ps]), "ev": [{"m": amap(tree(rng, 1, k=p + ":d"))} for p in ps]}]
        out.append(g)
    g = empty_log()
    g["ex"] = sorted(CUSTOM + STD)
    return out + [g]
