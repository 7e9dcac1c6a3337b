"""The accessors of the standard extensions, values for them, and their answers as data."""
import importlib
import random
import uuid
from datetime import datetime, timedelta, timezone
from urllib.parse import urlparse

import gen
import snap
from vlib import dec, enc, opt

#            accessor: extension, method stem
STEM = {"name": ("Concept", "name"), "instance": ("Concept", "instance"), "resource": ("Organizational", "resource"), "role": ("Organizational", "role"),
        "group": ("Organizational", "group"), "currency": ("Cost", "currency"), "driver": ("Cost", "driver"), "type": ("Cost", "type"), "total": ("Cost", "total"),
        "amount": ("Cost", "amount"), "id": ("Identity", "id"), "model": ("Lifecycle", "model"), "transition": ("Lifecycle", "transition"),
        "standard": ("Lifecycle", "standard_transition"), "level": ("Micro", "level"), "length": ("Micro", "length"), "parent": ("Micro", "parent_id"),
        "refs": ("Semantic", "model_references"), "uris": ("Semantic", "model_reference_uris"), "stamp": ("Time", "timestamp")}
TEXTS = ("name", "instance", "resource", "role", "group", "currency", "driver", "type")
KIND = dict({a: "text" for a in TEXTS}, total="amount", amount="amount", id="id", model="trim", transition="trim", standard="std", level="int", length="int",
            parent="id", refs="words", uris="words", stamp="time")
KEY = {"name": "concept:name", "instance": "concept:instance", "resource": "org:resource", "role": "org:role", "group": "org:group", "currency": "cost:currency",
       "driver": "cost:driver", "type": "cost:type", "total": "cost:total", "amount": "cost:amount", "id": "identity:id", "model": "lifecycle:model",
       "transition": "lifecycle:transition", "standard": "lifecycle:transition", "level": "micro:level", "length": "micro:length", "parent": "micro:parentId",
       "refs": "semantic:modelReference", "uris": "semantic:modelReference", "stamp": "time:timestamp"}
TYPE = {"text": "literal", "trim": "literal", "std": "literal", "words": "literal", "amount": "continuous", "int": "discrete", "id": "id", "time": "timestamp"}
STATES = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip", "manualskip", "unknown"]
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def ext(a):
    n = "X{}Extension".format(STEM[a][0])
    return getattr(importlib.import_module("opyenxes.extension.std." + n), n)()


def assign(a, el, v):
    getattr(ext(a), "assign_" + STEM[a][1])(el, v)


def extract(a, el):
    return getattr(ext(a), "extract_" + STEM[a][1])(el)


def remove(a, el):
    getattr(ext(a), "remove_" + STEM[a][1])(el)


def words(rng, n=None):
    pool = ["http://x.org/a#b", "urn:a:b", "x", "X", "http://x.org/\u00e4", "a,b", "s3://b/c?d=e&f=g", "/rel", "http://x.org/d/", "%41", "http://x.org/a#b"]
    return [rng.choice(pool) for _ in range(rng.randrange(1, 5) if n is None else n)]


def text(rng, states=False):
    r = rng.random()
    if states and r < .6:
        s = rng.choice(STATES)
        s = rng.choice((s, s, s.upper(), s.capitalize(), " " + s, s + "\t", s + "x", s[:-1], "XX", s.replace("_", "-"), s.replace("_", " "), "pi-abort", "ate abort", "re_assign", s + " " + s))
        return s
    if r < .75:
        return rng.choice([x for x in gen.LITERALS if x.strip()] + ["UNKNOWN", "standard", " standard ", "Standard", "standards", "standard 2", "non-standard", "0"])
    return gen.text(rng, 15, True).strip() or "t"


def value(rng, a, n=None):
    """A value for the accessor: None = any, 0 = one to be ignored where the accessor ignores, 1.. = a good one."""
    k = KIND[a]
    bad = n == 0 or (n is None and rng.random() < .25)
    if k in ("text", "trim"):
        return rng.choice((None, "", " ", "\t \n")) if bad else text(rng, a == "transition")
    if k == "std":
        return rng.choice(("", "  ", "nonsense", "completed")) if bad else text(rng, True)
    if k == "amount":
        if bad:
            return rng.choice((None, 0.0, -0.0, -1.0, -1e-300, -7.5))
        return rng.choice((5e-324, 0.01, 1.0, 1e300, 123.456, float("inf"), rng.uniform(0, 1e6) + 1e-9))
    if k == "int":
        return rng.choice((-1, -2, -10**20) + ((0, 0, 0) if a == "level" else ())) if bad else rng.choice((1, 2, 3, 10**20, rng.randrange(1, 1000)) + ((0, 0) if a == "length" else ()))
    if k == "id":
        from opyenxes.id.XID import XID
        return None if bad else XID(uuid.UUID(int=rng.choice((0, 1, rng.getrandbits(128)))))
    if k == "words":
        w = [] if bad else words(rng)
        return list(map(urlparse, w)) if a == "uris" else w
    if k == "time":
        if rng.random() < .3:
            return rng.choice((0, 1, -1, 1489585200123, -62135596800000 + 86400000, rng.randrange(-10**12, 10**13)))
        return snap.to_datetime(gen.stamp(rng))


def val(a, v):
    """The value as data."""
    r = {"v": "", "d": [], "sign": 0, "refs": []}
    k = KIND[a]
    if k == "words":
        r["refs"] = [enc(x if isinstance(x, str) else x.geturl()) for x in v]
    elif k == "time":
        r["d"] = snap.fields(v if isinstance(v, datetime) else EPOCH + timedelta(milliseconds=v))
        r["v"] = "d"
    elif v is None:
        r["v"] = "N"
    else:
        r["v"] = snap.tagged(TYPE[k], v)
        if k in ("amount", "int"):
            r["sign"] = (v > 0) - (v < 0)
    return r


def answer(a, got):
    """What extracting answered, as data."""
    k = KIND[a]
    if k == "words":
        if not isinstance(got, (list, tuple)):
            return ["?"]
        return [enc(x) if isinstance(x, str) else enc(x.geturl()) for x in got] if a == "refs" else [enc(x.geturl()) if hasattr(x, "geturl") else "?" for x in got]
    if k == "time":
        return [] if got is None else snap.fields(got)
    if k == "int" and got is None:
        return "?"
    return "N" if got is None else snap.tagged(TYPE[k], got)


def show(m):
    """An attribute map as data; references as their words."""
    r = snap.snap_map(m)
    a = r.get("semantic:modelReference")
    if a and a["t"] == "literal":
        a["v"] = "s" + " ".join(enc(w) for w in dec(a["v"][1:]).split())
    return r


def plain(rng, key=None):
    """An attribute recipe to be stored directly; of the accessor's type under its key."""
    a = rng.choice(sorted(KEY))
    r = rng.random()
    if key is None and r < .1:
        key = "lifecycle:model"
    if key is None and r < .5:
        key = rng.choice([k for k in gen.KEYS if k not in KEY.values()] + ["micro:lengt", "concept:names", "org:"])
    if key is None:
        key = KEY[a]
    ks = [x for x in KEY if KEY[x] == key]
    if not ks:
        return gen.tree(rng, rng.randrange(3), k=key)
    t = TYPE[KIND[ks[0]]]
    v, d = gen.value(rng, t)
    if t == "literal":
        v = "s" + enc(" ".join(words(rng)) if key.startswith("semantic") else rng.choice(("", " ", text(rng, True), text(rng)) if key != "lifecycle:model" else ("standard", " standard ", "Standard", "standard\n", "non-standard", text(rng))))
    if key == "time:timestamp" and rng.random() < .2:
        t, v, d = "literal", "s2020", ()
    x = snap.attr(key, t, v, d, rng.choice(("N", key.split(":")[0])))
    for _ in range(rng.choice((0, 0, 1, 2))):
        y = gen.tree(rng, 1)
        x["m"][y["k"]] = y
    return x


def texts(maps, vals):
    """Facts about the texts in these attribute maps and values."""
    out = {}

    def add(v):
        if v[:1] == "s" and v not in out:
            t = dec(v[1:])
            out[v] = {"t": "s" + enc(t.strip()), "l": "s" + enc(t.strip().lower()), "w": [enc(w) for w in t.split()]}
    for v in vals:
        add(v["v"])
        if v["refs"]:
            add("s" + " ".join(v["refs"]))
    for m in maps:
        for a in m.values():
            if a["t"] == "literal":
                add(a["v"])
    for s in STATES:
        add("s" + s)
    for v in list(out.values()):
        add(v["t"])
    return out
