import io
import os
import xml.etree.ElementTree as Et

import gen
import snap
from snap import attr, amap, empty_log
from vlib import enc, dec, opt

import drv.p01 as p01

TR = "Tr_P03"
CHUNKS = 4
MC = [{"module": "MC_P03", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Function Complete Faithful
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("every history of the machine (changes of two logs and writes by two writers), every interesting value of every type "
        "at every place, seeded random logs (also with collections linked as the reader leaves them) under random "
        "histories; each document is parsed by an independent XML reader and taken by the reader machine")
ASSUMPTIONS = ["documents are compared again as canonical XML", "Python's int(), float() and uuid.UUID() read number and identity texts"]


def setup():
    snap.register_custom()


def cases(ctx):
    rng = ctx.rng("p03")
    out = []
    hs = sorted(ctx.hist["MC_P03"], key=str)
    if not ctx.thorough:
        hs = rng.sample(hs, min(len(hs), 1500))
    for i in range(0, len(hs), 10):
        out.append({"id": "mc-{:05d}".format(i // 10), "runs": [{"g": [empty_log(), empty_log()], "h": h, "link": False} for h in hs[i:i + 10]]})
    sys = []
    for a in gen.each_type():
        for place, g in p01.everywhere(a):
            if place in ("event", "gt", "ge", "nested", "list", "container") and (ctx.thorough or rng.random() < .4):
                sys.append(g)
    for k in gen.KEYS + ["k\nl", "\t", " ", "k" * 200]:
        for place, g in p01.everywhere(attr(k, "literal", "sv")):
            if ctx.thorough or rng.random() < .5:
                sys.append(g)
    for cl in ([["c", ["concept:name"]]], [["c d", ["a b", "c"]], ["e", ["a", "b", "c d e"]]], [["<&>\"", ["k&", "<x>", "\"q\""]]],
               [["a", ["x"]], ["a", ["x"]], ["b", ["y", "x"]]], gen.STDCL):
        g = empty_log()
        g["cl"] = [[enc(n), [enc(k) for k in ks]] for n, ks in cl]
        sys.append(g)
    for i in range(len(gen.STD) + 1):
        g = empty_log()
        g["ex"] = gen.STD[i:]
        sys.append(g)
    for i in range(0, len(sys), 10):
        out.append({"id": "sys-{:05d}".format(i // 10), "runs": [{"g": [g, empty_log()], "h": [["write", 1, "1"]], "link": False} for g in sys[i:i + 10]]})
    for i in range(ctx.n(12, 200)):
        out.append({"id": "large-{:04d}".format(i), "runs": [{"g": [gen.large_log(rng, i), empty_log()], "h": [["write", 1, "1"], ["write", 1, "2"]], "link": i % 2 == 1}]})
    for i, g in enumerate(gen.long_logs(rng) + gen.custom_logs(rng)):
        out.append({"id": "long-{:04d}".format(i), "runs": [{"g": [g, empty_log()], "h": [["write", 1, "1"]], "link": False}]})
    muts = ["attr", "nest", "trace", "event", "class", "ext", "global", "list", "drop"]
    for i in range(ctx.n(90, 2500)):
        g = [gen.log(rng, depth=rng.choice((1, 2, 3)), line_breaks=rng.random() < .2), gen.log(rng, traces=2, depth=1)]
        h = [["write", 1, "1"]] + [["write", rng.choice((1, 2)), rng.choice("12")] if rng.random() < .6 else ["mut", rng.choice((1, 2)), rng.choice(muts)] for _ in range(5)]
        out.append({"id": "rnd-{:05d}".format(i), "runs": [{"g": g, "h": h, "link": i % 2 == 1}]})
    return out


def mutate(log, m):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    child = attr("c", "discrete", "i1")

    def put(o, a):
        r = snap.build_attr(a)
        o.get_attributes()[r.get_key()] = r
    if m == "attr":
        put(log, attr("a", "literal", "sx"))
    elif m == "nest":
        put(log, attr("n", "boolean", "btrue", m=amap(child)))
    elif m == "list":
        put(log, attr("l", "list", c=[child, child]))
    elif m == "trace":
        log.append(snap.build_trace({"m": {}, "ev": []}))
    elif m == "event":
        if len(log):
            log[-1].append(snap.build_event({"m": amap(child)}))
    elif m == "class":
        log.get_classifiers().append(XEventAttributeClassifier("c", ["a", "b c"]))
    elif m == "ext":
        log.get_extensions().add(snap.extension_of("time"))
    elif m == "global":
        log.get_global_event_attributes().append(snap.build_attr(child))
    elif len(log):
        log.pop()
    else:
        log.get_attributes().clear()


def den(tag, text):
    import uuid
    try:
        if tag == "string":
            return "s" + enc(text)
        if tag == "int":
            return "i" + str(int(text))
        if tag == "float":
            return "f" + repr(float(text))
        if tag == "boolean":
            return {"true": "btrue", "false": "bfalse"}.get(text, "?")
        if tag == "id":
            return "u" + str(uuid.UUID(text))
    except ValueError:
        return "?" + enc(text)
    return ""


def doc_events(el, out):
    tag = el.tag.split("}")[1] if el.tag.startswith("{http://www.xes-standard.org/") else el.tag
    t = el.get("value")
    out.append({"op": "start", "tag": enc(tag), "key": opt(el.get("key")), "den": "N" if t is None else den(tag, t),
                "text": "" if t is None else enc(t), "scope": enc(el.get("scope") or ""), "name": enc(el.get("name") or ""),
                "keys": enc(el.get("keys") or ""), "ft": {enc(k): opt(v) for k, v in el.attrib.items()} if tag == "log" else {}})
    for k in el:
        doc_events(k, out)
    out.append({"op": "end", "tag": enc(tag)})


def execute(case):
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    ev = []
    for n, run in enumerate(case["runs"]):
        logs = [snap.build_log(g, link=run["link"]) for g in run["g"]]
        ws = [XesXmlSerializer(), XesXmlSerializer()]
        ver = [0, 0]
        for op, l, x in run["h"]:
            log = logs[l - 1]
            if op == "mut":
                mutate(log, x)
                ver[l - 1] += 1
                ev.append({"op": "mut"})
                continue
            before = snap.snap_log(log)
            state = snap.state(log)
            e = {"op": "write", "err": "", "l": 2 * n + l, "ver": ver[l - 1], "before": before, "after": before, "well": False,
                 "doc": [], "digest": "", "exwant": [], "exgot": []}
            try:
                o = io.StringIO()
                ws[int(x) - 1].serialize(log, o)
                e["after"] = snap.snap_log(log)
                if state != snap.state(log):
                    e["after"] = dict(e["after"], cl=["changed"])
                try:
                    root = Et.fromstring(o.getvalue().encode("utf-8"))
                    e["well"] = True
                    doc_events(root, e["doc"])
                    e["digest"] = snap.digest(Et.canonicalize(o.getvalue()))
                    e["exgot"] = sorted([enc(y.get(k) or "") for k in ("name", "prefix", "uri")] for y in root if y.tag == "extension")
                    e["exwant"] = sorted([enc(y.get_name()), enc(y.get_prefix()), enc(y.get_uri().geturl())] for y in log.get_extensions())
                except Et.ParseError:
                    pass
            except Exception as y:
                e["err"] = enc("{}: {}".format(type(y).__name__, y)[:200])
            ev.append(e)
    return ev
