"""Extension definition files."""
import os
import random
import tempfile
from xml.sax.saxutils import escape, quoteattr

import gen
import snap
from vlib import enc

TR = "Tr_P24"
CHUNKS = 2
FORK = True
MC = [{"module": "MC_P24", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxAttrs = 2
  MaxSecs = %d
  MaxAliases = %d
INIT Init
NEXT Next
INVARIANTS Exact
CHECK_DEADLOCK FALSE
""" % ((3, 3) if tier == "thorough" else (2, 2))}]
RULE = ("every definition of up to the bound of sections (empty, repeated) and attributes with up to two aliases; seeded sequences of definitions over all sections and types, any "
        "tag letter case, odd names, prefixes, keys and aliases, repeated languages, comments, CDATA, aliases outside attributes, declarations, encodings and layouts, with many attributes and aliases, outer blanks and long texts, from odd local paths and file URLs, "
        "some repeated; each sequence in a fresh process")
ASSUMPTIONS = ["within a section (repeated ones together) no attribute is defined twice with the same key and type", "the network is not reachable while local files are parsed"]
TYPES = ["string", "date", "int", "float", "boolean", "id"]


def cases(ctx):
    rng = ctx.rng("p24")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P24"]), key=str)
    hist = rng.sample(hist, min(len(hist), ctx.n(1500, 15000)))
    size = 5
    for i in range(0, len(hist), size):
        out.append({"id": "hist-{:05d}".format(i), "docs": hist[i:i + size], "seed": rng.randrange(10**9)})
    for i in range(ctx.n(200, 3000)):
        out.append({"id": "long-{:04d}".format(i), "docs": None, "wide": i % 25 == 0, "seed": rng.randrange(10**9)})
    return out


def odd(rng, n=10, wide=False):
    """A text, possibly with outer blanks, empty or long."""
    r = rng.random()
    w = word(rng, n)
    return w if r < .85 else " " + w if r < .88 else w + "\t" if r < .91 else w + " " if r < .94 else "" if r < .97 else "long {} ".format(w) * 30


def word(rng, n=10):
    return rng.choice(["a", "name", "x y", "\u00e4", "<&>", "'q'", "\"", "A", "a:b", "concept:name", "1", "\U0001f600", "DEFAULT"]) if rng.random() < .5 else (gen.text(rng, n).strip() or "w")


def a_doc(rng, wide=False):
    def word(rng, n=10):
        return odd(rng, n, wide)
    if wide:
        secs = []
        for s in rng.sample(("log", "trace", "event", "meta", "event"), 3):
            secs.append([s, [[t, "k{}".format(i), [["L{}".format(j) if rng.random() < .7 else "EN", "alias {} {}".format(i, j)] for j in range(rng.choice((0, 1, 2, 12)))]]
                             for i in range(len(secs) * 40, len(secs) * 40 + rng.choice((8, 25))) for t in [rng.choice(TYPES)]]])
        return {"name": word(rng), "prefix": "wide", "uri": "http://x.org/wide", "secs": secs}
    secs = []
    seen = set()
    for _ in range(rng.choice((0, 1, 2, 3, 4, 5))):
        s = rng.choice(("log", "trace", "event", "meta"))
        attrs = []
        for _ in range(rng.choice((0, 1, 2, 5))):
            t, k = rng.choice(TYPES), rng.choice(("a", "b", "name")) if rng.random() < .6 else word(rng)
            if (s, t, k) in seen:
                continue
            seen.add((s, t, k))
            attrs.append([t, k, [[rng.choice(("EN", "DE", "FR", "en", "XX", word(rng, 4))), word(rng)] for _ in range(rng.choice((0, 0, 1, 2, 4)))]])
        secs.append([s, attrs])
    return {"name": word(rng), "prefix": rng.choice(("x", "p", word(rng, 5))), "uri": rng.choice(("http://x.org/x.xesext", "http://y.net/a/b", "http://y.net/a/b/", "http://x.org/x.xesext#part", "http://x.org/?q=1;p", "urn:z", "http://www.xes-standard.org/concept.xesext")),
            "secs": secs}


def write(rng, d, plain=False):
    def case(t):
        r = rng.random()
        return t if plain or r < .5 else t.upper() if r < .7 else "".join(c.upper() if rng.random() < .5 else c for c in t)

    def gap():
        if plain:
            return "\n"
        return rng.choice(("", "\n", "\n  ", " <!-- <string key=\"no\"/> -->", "<![CDATA[ x ]]>", "text", "<?pi data?>", "\n\t"))

    def stray():        # outside any attribute: of no attribute
        return gap() if plain or rng.random() < .8 else "<alias mapping=\"EN\" name=\"astray\"/>"

    def attrs(pairs):
        pairs = list(pairs)
        if not plain:
            rng.shuffle(pairs)
        return "".join(" {}={}".format(k, quoteattr(v)) for k, v in pairs)
    root = "xesextension" if plain else rng.choice(("xesextension", "xesExtension", "XESEXTENSION"))
    out = ["<?xml version=\"1.0\" encoding=\"UTF-8\" ?>" if plain or rng.random() < .7 else "", gap() if False else "",
           "<{}{}>".format(root, attrs([("name", d["name"]), ("prefix", d["prefix"]), ("uri", d["uri"])] + ([] if plain or rng.random() < .7 else [("xmlns:z", "http://z")])))]
    for s, ats in d["secs"]:
        t = case(s)
        out.append(gap())
        if not ats and rng.random() < .5:
            out.append("<{}/>".format(t))
            continue
        out.append("<{}>".format(t))
        for ty, k, als in ats:
            tt = case(ty)
            out.append(stray())
            if not als and rng.random() < .5:
                out.append("<{}{}/>".format(tt, attrs([("key", k)])))
                continue
            out.append("<{}{}>".format(tt, attrs([("key", k)])))
            for lang, n in als:
                out.append(gap())
                at = case("alias")
                out.append("<{}{}{}".format(at, attrs([("mapping", lang), ("name", n)]), "/>" if rng.random() < .7 else "></{}>".format(at)))
            out.append(gap() + "</{}>".format(tt))
        out.append(stray() + "</{}>".format(t))
    out.append(gap() + "</{}>".format(root))
    return "".join(out)


def execute(case):
    import socket
    from pathlib import Path
    from urllib.parse import urlparse
    from opyenxes.extension.XExtensionParser import XExtensionParser
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    rng = random.Random(case["seed"])

    def refuse(*_, **__):
        raise OSError("network used")
    socket.socket.connect = refuse
    socket.getaddrinfo = refuse
    if rng.random() < .4:
        import opyenxes.extension.XExtensionManager as em
        em.XExtensionManager()
    docs = [{"name": "X", "prefix": "x", "uri": "http://x.org/x.xesext", "secs": s} for s in case["docs"]] if case["docs"] is not None else [a_doc(rng, True)] if case.get("wide") else [a_doc(rng) for _ in range(rng.randrange(1, 5))]
    if case["docs"] is None and rng.random() < .3:
        docs.append(docs[0])
    g = XGlobalAttributeNameMap()
    keys = {"nothing", "concept:name", "a", "name"}
    for d in docs:
        keys |= {"{}:{}".format(d["prefix"], k) for _, ats in d["secs"] for _, k, _ in ats} | {k for _, ats in d["secs"] for _, k, _ in ats}
    keys = sorted(keys)

    def names():
        out = {}
        for m in g.get_available_mappings():
            out[enc(m.get_mapping_name())] = {enc(k): enc(m.map(k)) for k in keys if m.map(k) is not None}
        return out

    def langs():
        return [enc(n) for n in g.get_available_mapping_names()]
    evs = [{"op": "begin", "names": names()}]
    seen, ids = [], []
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        for n, d in enumerate(docs):
            text = write(rng, d, case["docs"] is not None and n % 2 == 0)
            name = "d{}.xesext".format(n) if rng.random() < .5 else rng.choice(("a b{}", "\u00e4{}", "x#{}", "p%41{}.XESEXT", "{}", "q?{}.xml")).format(n)
            path = os.path.join(tmp, name)
            enc_as = rng.choice(("utf-8", "utf-8", "utf-16")) if "encoding" not in text else "utf-8"
            with open(path, "wb") as h:
                h.write(text.encode(enc_as))
            r = rng.random()
            got = XExtensionParser.parse(path if r < .5 else name if r < .7 else Path(path).as_uri())
            secs = []
            for s in (got.get_log_attributes(), got.get_trace_attributes(), got.get_event_attributes(), got.get_meta_attributes()):
                row = []
                for a in s:
                    t = snap.typ(a)
                    v = snap.tagged(t, a.get_value())
                    if t == "id":
                        ids.append(v)
                    row.append({"t": t, "k": enc(a.get_key()), "v": v, "d": snap.fields(a.get_value()) if t == "timestamp" else [], "own": a.get_extension() is got,
                                "bare": len(a.get_attributes()) == 0})
                secs.append(row)
            evs.append({"op": "parse", "doc": {"name": enc(d["name"]), "prefix": enc(d["prefix"]), "uri": enc(d["uri"]),
                                               "secs": [[s, [[t, enc(k), [[enc(x), enc(y)] for x, y in als]] for t, k, als in ats]] for s, ats in d["secs"]]},
                        "ext": {"name": enc(got.get_name()), "prefix": enc(got.get_prefix()), "uri": enc(got.get_uri().geturl() if got.get_uri() == urlparse(d["uri"]) else "another URI"), "secs": secs},
                        "names": names(), "langs": langs(), "fresh": all(x is not got for x in seen), "ids": len(set(ids)) == len(ids)})
            seen.append(got)
        os.chdir("/")
    return evs
