import io
import os
import uuid

import gen
import snap
import xesdoc as xd
from vlib import enc, dec

TR = "Tr_P02"
CHUNKS = 2
MC = [{"module": "MC_P02", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxStarts = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Stacked Finished
CHECK_DEADLOCK FALSE
""" % (7 if tier == "thorough" else 5)}]
RULE = ("every element history of bounded size the reader machine admits (foreign elements, invalid dates, globals, nesting) "
        "and seeded random documents: any element order, letter case, quoting, character references, comments, text and "
        "foreign elements in between, missing keys and values, repeated keys, deep, wide and long ones, every lexical form of the values")
ASSUMPTIONS = ["documents are well-formed XML with events in traces in one log; numbers, identities and scopes are valid",
               "Python's int(), float() and uuid.UUID() are the reference for number and identity texts"]

URIS = {"concept": "http://www.xes-standard.org/concept.xesext", "lifecycle": "http://www.xes-standard.org/lifecycle.xesext",
        "org": "http://www.xes-standard.org/org.xesext", "time": "http://www.xes-standard.org/time.xesext",
        "semantic": "http://www.xes-standard.org/semantic.xesext", "identity": "http://www.xes-standard.org/identity.xesext",
        "cost": "http://www.xes-standard.org/cost.xesext", "micro": "http://www.xes-standard.org/micro.xesext"}
BAD_DATES = ["", "bad", "2017-13-01T00:00:00Z", "2017-02-30T10:00:00", "2017-01-01", "2017-01-01T25:00:00Z", "now", "2017-01-01T00:00:00+25:00", None]
TAGS = ["string", "date", "int", "float", "boolean", "id", "list", "container"]


def value_text(rng, tag):
    """(text, denoted value)"""
    if tag == "string":
        s = rng.choice(gen.LITERALS) if rng.random() < .4 else gen.text(rng, 20, rng.random() < .2)
        return s, "s" + enc(s)
    if tag == "int":
        i = rng.choice(gen.INTS) if rng.random() < .5 else rng.randrange(-10**6, 10**6)
        t = str(i)
        r = rng.random()
        if r < .1 and i >= 0:
            t = "+" + t
        elif r < .2:
            t = t.replace("-", "-00") if i < 0 else "00" + t
        elif r < .25:
            t = " " + t + " "
        return t, "i" + str(i)
    if tag == "float":
        if rng.random() < .5:
            t = rng.choice(["0", "1", "-1", "1.0", "-2.50", "1e5", "1E5", "1.5e-10", ".5", "5.", "+3.25", "NaN", "INF", "-INF", "1e400", "007.5", " 2.5 ", "12345678901234567890",
                            "0.1", "1E+2", "-0.0", "4.9E-324"])
        else:
            t = repr(rng.uniform(-1e9, 1e9))
        return t, "f" + repr(float(t))
    if tag == "boolean":
        t = rng.choice(("true", "false", "True", "FALSE", "TRUE", "False", "tRuE"))
        return t, "btrue" if t.lower() == "true" else "bfalse"
    if tag == "id":
        u = str(uuid.UUID(int=rng.getrandbits(128)))
        return rng.choice((u, u.upper())), "u" + u
    if tag == "date":
        if rng.random() < .25:
            return rng.choice(BAD_DATES), "d"
        s = gen.stamp(rng)
        t = "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}".format(*s[:6])
        r = rng.random()
        if r < .6:
            t += ".%06d" % s[6] if r < .2 else ".%03d" % (s[6] // 1000)
        if s[7] != 99999:
            t += "Z" if s[7] == 0 and rng.random() < .7 else "{}{:02}:{:02}".format("-" if s[7] < 0 else "+", *divmod(abs(s[7]), 60))
        return t, "d"
    return rng.choice((None, None, None, "ignored")), ""


def attrib(rng, depth, pf=0.15):
    tag = rng.choice(TAGS)
    t, den = value_text(rng, tag)
    if tag == "string" and rng.random() < .05:
        t, den = None, "s"
    key = None if rng.random() < .04 else gen.key(rng)
    r = rng.random()
    if r < .3:
        key = rng.choice("ab")
    elif r < .34:
        key = ""
    n = xd.attribute(tag, key, t, den)
    if depth > 0 and rng.random() < .5:
        n["kids"] = wrap(rng, [attrib(rng, depth - 1, pf) for _ in range(rng.randrange(0, 4))], pf)
    return n


def wrap(rng, kids, pf):
    """Put foreign elements between and around."""
    out = []
    for k in kids:
        if rng.random() < pf:
            k = xd.node(rng.choice(("meta", "strings", "x", "foo:bar", "lists", "attribute", "audit")), [k] + ([out.pop()] if out and rng.random() < .3 else []),
                        xml=rng.choice(({}, {"key": "k", "value": "v"}, {"scope": "trace"})))
        out.append(k)
        if rng.random() < pf / 2:
            out.append(xd.node(rng.choice(("meta", "empty")), xml={"key": "z"}))
    return out


def random_doc(rng, depth=2, size=3, pf=0.15):
    kids = []
    for _ in range(rng.randrange(0, size + 1)):
        kids.append(attrib(rng, depth, pf))
    for _ in range(rng.choice((0, 1, 1, 2, 2, 5))):
        r = rng.random()
        p = rng.choice(gen.STD)
        if r < .4:
            kids.append(xd.extension(p, URIS[p], p.capitalize(), p))
        elif r < .6:
            kids.append(xd.extension(p, None, None, p))
        elif r < .8:
            kids.append(xd.extension(None, URIS[p], None, p))
        else:
            kids.append(xd.extension("nope", "http://nowhere.example/nope.xesext", "Nope"))
    nm = ""
    for _ in range(rng.choice((0, 1, 2, 2, 3))):
        r = rng.random()
        ks = [k for k in (" ".join(gen.key(rng).replace("'", "").split()) for _ in range(rng.randrange(1, 4))) if k]
        nm = gen.text(rng, 10) if rng.random() < .8 else nm
        if r < .8:
            kids.append(xd.classifier(nm, ks))
        elif r < .87:
            kids.append(xd.classifier("", ks))
        elif r < .94:
            kids.append(xd.classifier(nm, []))
        else:
            kids.append(xd.classifier(None, ks))
    for _ in range(rng.randrange(0, 3)):
        sc = rng.choice(("trace", "event"))
        kids.append(xd.glob(sc, wrap(rng, [attrib(rng, depth, pf) for _ in range(rng.randrange(0, 4))], pf), rng.choice((sc, sc, sc.upper(), sc.capitalize()))))
    for _ in range(rng.randrange(0, size + 1)):
        tk = [attrib(rng, depth, pf) for _ in range(rng.randrange(0, size))]
        for _ in range(rng.randrange(0, size + 1)):
            tk.append(xd.node("event", wrap(rng, [attrib(rng, depth, pf) for _ in range(rng.randrange(0, size + 1))], pf)))
        if rng.random() < .6:
            rng.shuffle(tk)
        kids.append(xd.node("trace", wrap(rng, tk, pf)))
    if rng.random() < .6:
        rng.shuffle(kids)
    ft = rng.choice(({}, {"xes.version": "1.0", "xes.features": "nested-attributes", "openxes.version": "1.0RC7"}, {"xes.version": "2.0"}, {"xes.x": "<y>"},
                     {"openxes.x": "a b", "openxes.version": "", "xes.features": "nested-attributes|arbitrary-depth", "xes.creator": "\u00e4"},
                     {"XES.version": "1", "Xes.x": "2", "xesfoo": "3", "openxes": "4", "OpenXES.y": "5", "axes.x": "6", "xes.": "7", "openxes.": "8", "xes": "9"}))
    return xd.log_node(wrap(rng, kids, pf), ft, rng.choice(({}, {"xmlns": "http://www.xes-standard.org/"}, {"other": "1", "version": "3"})))


def from_history(h, i):
    """A document of the machine's own alphabet."""
    root, stack = None, []
    for tag, key in h:
        if tag == "":
            stack.pop()
            continue
        if tag == "log":
            n = xd.log_node([])
        elif tag == "global":
            n = xd.glob("event", [])
        elif tag in ("trace", "event", "meta"):
            n = xd.node(tag)
        else:
            n = xd.attribute(tag, key, {"string": "x%d" % len(stack), "int": "1", "date": "bad"}.get(tag), {"string": "sx%d" % len(stack), "int": "i1"}.get(tag, ""))
        if stack:
            stack[-1]["kids"].append(n)
        else:
            root = n
        stack.append(n)
    return root


def setup():
    snap.register_custom()


def cases(ctx):
    rng = ctx.rng("p02")
    out = []
    for i, h in enumerate(sorted(ctx.hist["MC_P02"], key=str)):
        n = from_history(h, i)
        style = "std" if i % 2 else "odd"
        out.append({"id": "mc-{:05d}".format(i), "text": xd.document(rng, n, style), "ev": xd.events(n, []), "io": ("text", "bytes")[i % 2]})
    for i in range(ctx.n(450, 8000)):
        n = random_doc(rng, rng.choice((0, 1, 2, 3)), rng.choice((1, 2, 3, 4)), rng.choice((0, .15, .4)))
        out.append({"id": "rnd-{:05d}".format(i), "text": xd.document(rng, n, rng.choice(("odd", "odd", "std"))), "ev": xd.events(n, []),
                    "io": ("text", "bytes", "file", "utf16")[i % 4]})
    for i in range(ctx.n(24, 300)):
        n = large_doc(rng, i)
        out.append({"id": "large-{:04d}".format(i), "text": xd.document(rng, n, rng.choice(("odd", "std"))), "ev": xd.events(n, []), "io": ("text", "bytes", "file")[i % 3]})
    for i in range(ctx.n(6, 60)):
        ps = rng.sample(snap.CUSTOM, rng.choice((1, 4, len(snap.CUSTOM))))
        kids = []
        for p in ps:
            r = rng.random()
            u = snap.custom_uri(p)
            kids.append(xd.extension(p, u, "Custom " + p, p) if r < .4 else xd.extension(p, None, None, p) if r < .7 else xd.extension(None, u, None, p))
            a = attrib(rng, 1)
            kids.append(dict(a, xml=dict(a["xml"], key=p + ":a"), ev=dict(a["ev"], key="s%s:a" % p)))
        n = xd.log_node(kids + [xd.node("trace", [kids[-1]])])
        out.append({"id": "custom-{:04d}".format(i), "text": xd.document(rng, n, rng.choice(("odd", "std"))), "ev": xd.events(n, []), "io": ("text", "bytes", "file")[i % 3]})
    for i in range(5):
        n = long_doc(rng, i)
        out.append({"id": "long-{:04d}".format(i), "text": xd.document(rng, n, rng.choice(("odd", "std"))), "ev": xd.events(n, []), "io": ("text", "bytes", "file")[i % 3]})
    return out


def long_doc(rng, i):
    """Documents with very many elements of a kind."""
    def a(k, v):
        return xd.attribute("string", k, str(v), "s%d" % v)
    if i == 0:
        kids = [xd.node("trace", [xd.node("event", [a("k", j)]) for j in range(rng.randrange(1050, 1200))])]
    elif i == 1:
        kids = [xd.node("trace", [xd.node("event", [a("k", j)])] if j % 3 else []) for j in range(rng.randrange(260, 330))]
    elif i == 2:
        kids = [a("k%d" % j, j) for j in range(300)] + [xd.node("trace", [a("k%d" % j, j) for j in range(150)] + [xd.node("event", [a("k%d" % j, j) for j in range(150)])])]
    elif i == 3:
        kids = []
        for t in ("list", "container", "int"):
            n = xd.attribute(t, t, "1" if t == "int" else None, "i1" if t == "int" else "")
            n["kids"] = [a("k%d" % (j % 200), j) for j in range(280)]
            kids.append(n)
    else:
        kids = [xd.glob("trace", [a("g%d" % j, j) for j in range(130)]), xd.glob("event", [a("h%d" % j, j) for j in range(130)])]
        kids += [xd.classifier("c%d" % j, ["k%d" % m for m in range(1 + j % 3)]) for j in range(120)] + [xd.classifier("wide", ["key %d" % j for j in range(150)])]
    return xd.log_node(kids)


def large_doc(rng, i):
    """Documents that are deep, wide or long in one respect."""
    kids = []
    if i % 4 == 0:
        n = attrib(rng, 0)
        for _ in range(rng.randrange(5, 30)):
            up = attrib(rng, 0)
            up["kids"] = wrap(rng, [attrib(rng, 0) for _ in range(rng.randrange(2))] + [n], .1)
            n = up
        kids.append(rng.choice((n, xd.node("trace", [xd.node("event", [n])]), xd.glob("event", [n]))))
    elif i % 4 == 1:
        kids.append(xd.node("trace", [xd.node("event", [attrib(rng, 0)]) for _ in range(rng.randrange(10, 60))]))
    elif i % 4 == 2:
        kids += [xd.node("trace", [xd.node("event", [attrib(rng, 0) for _ in range(rng.randrange(2))])]) for _ in range(rng.randrange(10, 40))]
    else:
        n = xd.attribute(rng.choice(("list", "container", "string")), "many", None, "")
        n = dict(n, ev=dict(n["ev"], den="s")) if n["tag"] == "string" else n
        n["kids"] = [attrib(rng, 0) for _ in range(rng.randrange(10, 60))]
        t = "".join(gen.text(rng, 20) for _ in range(rng.choice((60, 900))))
        kids += [n, xd.attribute("string", "long", t, "s" + enc(t))] + [xd.classifier("c%d" % (j % 9), ["k%d" % m for m in range(rng.randrange(1, 15))]) for j in range(rng.randrange(14))]
    return xd.log_node(kids)


def execute(case):
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    t = case["text"]
    e = {"op": "parsed", "err": "", "n": 0, "log": snap.empty_log(), "ft": {}}
    try:
        if case["io"] == "file":
            p = os.path.join(os.environ["VERIF_SCRATCH"], case["id"] + ".xes")
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(t)
            with open(p, encoding="utf-8") as f:
                got = XesXmlParser().parse(f)
            os.remove(p)
        elif case["io"] == "text":
            got = XesXmlParser().parse(io.StringIO(t))
        elif case["io"] == "utf16":
            if t.startswith("<?xml"):
                t = t[t.index("?>") + 2:]
            got = XesXmlParser().parse(io.BytesIO(('<?xml version="1.0" encoding="UTF-16"?>' + t).encode("utf-16")))
        else:
            got = XesXmlParser().parse(io.BytesIO(t.encode("utf-8")))
        e["n"] = len(got)
        e["log"], e["ft"] = snap.snap_log(got[0]), snap.features(got[0])
    except Exception as x:
        e["err"] = enc("{}: {}".format(type(x).__name__, x)[:200])
    return case["ev"] + [e]
