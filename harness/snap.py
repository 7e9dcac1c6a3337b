"""Logs as data: build real objects from recipes and observe real objects in the same shape.

An attribute is {"k": key, "t": type, "v": tagged value, "d": datetime fields, "x": extension prefix or "N",
"m": {key: nested attribute}, "c": [children of a list or container]}; texts are encoded (vlib.enc).
"""
import hashlib
import json
import uuid
from datetime import datetime, timedelta, timezone

from vlib import enc, dec, opt

NAIVE = 99999


def attr(k, t, v="", d=(), x="N", m=None, c=()):
    return {"k": enc(k), "t": t, "v": v, "d": list(d), "x": x, "m": m or {}, "c": list(c)}


def amap(*attrs):
    return {a["k"]: a for a in attrs}


# ---- recipes -> objects

def to_datetime(d):
    return datetime(*d[:7], tzinfo=None if d[7] == NAIVE else timezone(timedelta(minutes=d[7])))


def value_of(a):
    from opyenxes.id.XID import XID
    t, v = a["t"], a["v"]
    if t == "literal":
        return dec(v[1:])
    if t == "discrete":
        return int(v[1:])
    if t == "continuous":
        return float(v[1:])
    if t == "boolean":
        return v == "btrue"
    if t == "id":
        return XID(uuid.UUID(v[1:]))
    if t == "timestamp":
        return to_datetime(a["d"])
    raise ValueError(t)


def extension_of(x):
    if x == "N":
        return None
    from opyenxes.extension.XExtensionManager import XExtensionManager
    return XExtensionManager().get_by_prefix(dec(x))


CUSTOM = ["cx%d" % i for i in range(1, 13)] + ["Cx1", "c.x"]


def custom_uri(p):
    return "http://example.org/ext/%s.xesext" % p


def register_custom():
    """Register further extensions, as an application with its own ones does."""
    from urllib.parse import urlparse
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    for p in CUSTOM:
        XExtensionManager().register(XExtension("Custom " + p, p, urlparse(custom_uri(p))))


def build_attr(a, f=None, link=False):
    """The real attribute; link=True also links children of collections in the attribute map."""
    if f is None:
        from opyenxes.factory.XFactory import XFactory
        f = XFactory()
    k, x = dec(a["k"]), extension_of(a["x"])
    if a["t"] in ("list", "container"):
        r = getattr(f, "create_attribute_" + a["t"])(k, x)
        for ch in a["c"]:
            o = build_attr(ch, f, link)
            r.add_to_collection(o)
            if link:
                r.get_attributes()[o.get_key()] = o
    else:
        r = getattr(f, "create_attribute_" + a["t"])(k, value_of(a), x)
    for ch in a["m"].values():
        o = build_attr(ch, f, link)
        r.get_attributes()[o.get_key()] = o
    return r


def fill(o, m, f=None, link=False):
    for a in m.values():
        r = build_attr(a, f, link)
        o.get_attributes()[r.get_key()] = r
    return o


def build_event(e, f=None, link=False):
    from opyenxes.factory.XFactory import XFactory
    return fill((f or XFactory()).create_event(), e["m"], f, link)


def build_trace(t, f=None, link=False):
    from opyenxes.factory.XFactory import XFactory
    r = fill((f or XFactory()).create_trace(), t["m"], f, link)
    for e in t["ev"]:
        r.append(build_event(e, f, link))
    return r


def build_classifier(name, keys):
    """A predefined or composite classifier where the name and keys are those of one."""
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
    std = [XEventNameClassifier(), XEventResourceClassifier(), XEventLifeTransClassifier()]
    for c in std + [XEventAndClassifier(std[:2]), XEventAndClassifier([std[2]]), XEventAndClassifier(std)]:
        if [c.name(), list(c.get_defining_attribute_keys())] == [name, keys]:
            return c
    return XEventAttributeClassifier(name, keys)


def build_log(log, f=None, link=False):
    from opyenxes.factory.XFactory import XFactory
    f = f or XFactory()
    r = fill(f.create_log(), log["m"], f, link)
    for x in log["ex"]:
        r.get_extensions().add(extension_of(x))
    for a in log["gt"]:
        r.get_global_trace_attributes().append(build_attr(a, f, link))
    for a in log["ge"]:
        r.get_global_event_attributes().append(build_attr(a, f, link))
    for name, keys in log["cl"]:
        r.get_classifiers().append(build_classifier(dec(name), [dec(k) for k in keys]))
    for t in log["tr"]:
        r.append(build_trace(t, f, link))
    return r


# ---- objects -> data

def fields(dt):
    if not isinstance(dt, datetime):
        return [0, 0, 0, 0, 0, 0, 0, 0]
    off = dt.utcoffset()
    o = NAIVE if off is None else off.days * 1440 + off.seconds // 60
    return [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond, o]


def ext_of(a):
    x = a.get_extension()
    if x is None:
        return "N"
    try:
        return enc(x.get_prefix())
    except Exception:
        return "?" + type(x).__name__


def typ(a):
    from opyenxes.model.XAttributeBoolean import XAttributeBoolean
    from opyenxes.model.XAttributeContinuous import XAttributeContinuous
    from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    from opyenxes.model.XAttributeID import XAttributeID
    from opyenxes.model.XAttributeList import XAttributeList
    from opyenxes.model.XAttributeContainer import XAttributeContainer
    from opyenxes.model.XAttributeLiteral import XAttributeLiteral
    for n, c in (("boolean", XAttributeBoolean), ("continuous", XAttributeContinuous), ("discrete", XAttributeDiscrete),
                 ("timestamp", XAttributeTimestamp), ("id", XAttributeID), ("list", XAttributeList),
                 ("container", XAttributeContainer), ("literal", XAttributeLiteral)):
        if isinstance(a, c):
            return n
    return "?" + type(a).__name__


def tagged(t, v):
    if t == "literal":
        return opt(v)
    if t == "discrete":
        return "i" + str(v) if type(v) is int else "?" + enc(repr(v)[:60])
    if t == "continuous":
        return "f" + repr(float(v)) if type(v) in (int, float) else "?" + enc(repr(v)[:60])
    if t == "boolean":
        return {True: "btrue", False: "bfalse"}.get(v, "?") if type(v) is bool else "?" + enc(repr(v)[:60])
    if t == "id":
        return "u" + str(v).lower()
    if t == "timestamp":
        return "d" if isinstance(v, datetime) else "?" + enc(repr(v)[:60])
    return ""


def snap_attr(a, depth=0):
    if depth > 60:
        raise RecursionError("attribute tree too deep")
    t = typ(a)
    coll = t in ("list", "container")
    v = None if coll else a.get_value()
    k = a.get_key()
    return {"k": enc(k) if isinstance(k, str) else "?" + enc(repr(k)), "t": t, "v": "" if coll else tagged(t, v),
            "d": fields(v) if t == "timestamp" else [], "x": ext_of(a),
            "m": {} if coll else snap_map(a.get_attributes(), depth + 1),
            "c": [snap_attr(ch, depth + 1) for ch in a.get_collection()] if coll else []}


def snap_map(m, depth=0):
    return {enc(k): snap_attr(a, depth) for k, a in sorted(m.items())}


def full(m):
    """snap_map with the attribute maps of collections too."""
    return {enc(k): dict(snap_attr(a), m=full(a.get_attributes())) for k, a in sorted(m.items())}


def full_log(log):
    return dict(snap_log(log), m=full(log.get_attributes()),
                tr=[{"m": full(t.get_attributes()), "ev": [{"m": full(e.get_attributes())} for e in t]} for t in log])


def snap_event(e):
    return {"m": snap_map(e.get_attributes())}


def snap_trace(t):
    return {"m": snap_map(t.get_attributes()), "ev": [snap_event(e) for e in t]}


def snap_log(log):
    return {"m": snap_map(log.get_attributes()), "tr": [snap_trace(t) for t in log],
            "gt": [snap_attr(a) for a in log.get_global_trace_attributes()],
            "ge": [snap_attr(a) for a in log.get_global_event_attributes()],
            "cl": [[enc(c.name()), [enc(k) for k in c.get_defining_attribute_keys()]] for c in log.get_classifiers()],
            "ex": sorted(enc(x.get_prefix()) for x in log.get_extensions())}


def state(log):
    """Everything a log holds, with what snap_log leaves out: attribute maps of collections, features, object identities."""
    def of_attr(a, depth=0):
        return [id(a), snap_attr(a) if depth == 0 else 0, [[k, of_attr(x, depth + 1)] for k, x in a.get_attributes().items()],
                [of_attr(x, depth + 1) for x in a.get_collection()] if hasattr(a, "get_collection") else 0]

    def of_map(e):
        return [id(e), [[k, of_attr(x)] for k, x in e.get_attributes().items()]]
    return digest([of_map(log), [[of_map(t), [of_map(e) + [id(e.get_id()), str(e.get_id())] for e in t]] for t in log],
                   [of_attr(a) for a in log.get_global_trace_attributes()], [of_attr(a) for a in log.get_global_event_attributes()],
                   [[id(c), c.name(), list(c.get_defining_attribute_keys())] for c in log.get_classifiers()],
                   sorted(id(x) for x in log.get_extensions()), features(log)])


def features(log):
    return {enc(k): opt(v) for k, v in log.get_features().items()}


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def empty_log():
    return {"m": {}, "tr": [], "gt": [], "ge": [], "cl": [], "ex": []}
