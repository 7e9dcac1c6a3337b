"""Questions asked of logs between changes: they change nothing, and the answer depends on the contents alone."""
import contextlib
import io
import json
import random
import re

import acc
import gen
import snap
from vlib import dec, enc

TR = "Tr_P38"
CHUNKS = 4
MC = [{"module": "MC_P38", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
INVARIANTS Functional Fresh
PROPERTIES Untouched NeverContradicts
CHECK_DEADLOCK FALSE
""" % (7 if tier == "thorough" else 5)}]
RULE = ("every sequence up to the bound of questions and changes that can be undone; random sessions with all questions (both documents, summaries, classes, classifiers, extensions, types, "
        "prototypes, accessors, nested costs, texts, comparisons, copies, names, wrappers, time bounds) between changes of values, attributes, nesting, events, traces, definitions and their "
        "undoing; every answer against the former ones for the same contents and that of a rebuilt log")
ASSUMPTIONS = ["the identity of events and the order of attributes are not part of the contents"]


def cases(ctx):
    rng = ctx.rng("p38")
    out = []
    hist = [json.loads(h) for h in sorted({json.dumps(h) for h in ctx.hist["MC_P38"]})]
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top and any(x[0] == "look" for x in h)]
    hist = rng.sample(hist, min(len(hist), ctx.n(300, 6000)))
    for i, h in enumerate(hist):
        qs, es = rng.sample(sorted(QUESTIONS), 3), [rng.randrange(10**9) for _ in range(2)]
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "qs": qs, "es": es, "size": 2, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(200, 2500)):
        ops = []
        for _ in range(rng.choice((10, 25, 60))):
            ops.append(["look", 0] if rng.random() < .7 else ["edit", rng.randrange(1, 4)])
        out.append({"id": "session-{:05d}".format(i), "ops": ops, "qs": [], "few": rng.choice((0, 2, 4)), "es": [rng.randrange(10**9) for _ in range(3)], "size": rng.choice((1, 2, 4)), "seed": rng.randrange(10**9)})
    return out


# ---- questions: a log -> an answer, the same for equal contents

def everything(log):
    """Each element with attributes, by its place."""
    def inside(a, p, depth=0):
        yield p, a
        for k in sorted(a.get_attributes()):
            yield from inside(a.get_attributes()[k], p + ["m", k], depth + 1)
        if hasattr(a, "get_collection"):
            for i, x in enumerate(a.get_collection()):
                yield from inside(x, p + ["c", i], depth + 1)

    def under(x, p):
        yield p, x
        for k in sorted(x.get_attributes()):
            yield from inside(x.get_attributes()[k], p + [k])
    yield from under(log, ["log"])
    for i, t in enumerate(log):
        yield from under(t, [i])
        for j, e in enumerate(t):
            yield from under(e, [i, j])
    for n, g in (("gt", log.get_global_trace_attributes()), ("ge", log.get_global_event_attributes())):
        for i, a in enumerate(g):
            yield from inside(a, [n, i])


def there_and_back(xs):
    """Ends where it begins, so that what is asked last is asked first the next time."""
    return xs + xs[::-1]


def attributes(log):
    return [(p, x) for p, x in everything(log) if hasattr(x, "get_key")]


def elements(log):
    return [(p, x) for p, x in everything(log) if not hasattr(x, "get_key")]


def tree(data):
    """The document with attributes of an element in no order."""
    import xml.etree.ElementTree as Et

    def norm(x):
        parts = [norm(y) for y in x]
        held = [y for y in parts if y[0] in ("trace", "event", "ProcessInstance", "AuditTrailEntry", "Process")]
        rest = sorted((y for y in parts if y not in held), key=lambda y: json.dumps(y, sort_keys=True))
        return [x.tag.split("}")[-1], sorted(x.attrib.items()), (x.text or "").strip(), rest, held]
    return norm(Et.fromstring(data))


def document(writer, byte):
    def ask(log):
        import importlib
        n = "opyenxes.data_out.{}Serializer".format(writer)
        w = getattr(importlib.import_module(n), n.split(".")[-1])()
        out = io.BytesIO() if byte else io.StringIO()
        w.serialize(log, out, True) if byte else w.serialize(log, out)
        return tree(out.getvalue())
    return ask


MADE = {}
CLASSIFIERS = {"name": ("Concept:name", ["concept:name"]), "two": ("two", ["concept:name", "lifecycle:transition"]), "odd": ("odd", ["org:resource", "a"]), "none": ("none", ["nowhere"]), "three": ("three", ["concept:name", "b", "org:resource"])}


def classifier(n):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    if n not in MADE:        # the same ones throughout a case
        MADE[n] = XEventAttributeClassifier(CLASSIFIERS[n][0], list(CLASSIFIERS[n][1]))
    return MADE[n]


def classes(n):
    def ask(log):
        c = classifier(n)
        es = [e for t in log for e in t]
        return [[enc(c.get_class_identity(e)) for e in es], [[c.same_event_class(a, b) for b in es[:4]] for a in es[:4]], [enc(c.get_class_identity(e)) for e in reversed(es)]]
    return ask


def own_classes(log):
    es = [e for t in log for e in t]
    return [[c.name(), c.get_defining_attribute_keys(), [enc(c.get_class_identity(e)) for e in there_and_back(es)]] for c in log.get_classifiers()]


def summary(n):
    def ask(log):
        from opyenxes.info.XLogInfo import XLogInfo
        info = XLogInfo.create(log, classifier(n)) if n else XLogInfo.create(log)

        def span(b):
            return [str(b.get_start_date()), str(b.get_end_date())]

        def sets(s):
            return [[enc(c.get_id()), c.get_index(), c.size()] for c in s.get_classes()]

        def stats(a):
            return sorted([[enc(k), a.get_frequency(k), round(a.get_relative_frequency(k), 9)] for k in a.get_attribute_keys()]), sorted(repr(a.get_frequency(x)) for x in a.get_attributes())
        return [info.get_number_of_traces(), info.get_number_of_event(), sets(info.get_event_classes()), sets(info.get_name_classes()), sets(info.get_resource_classes()),
                sets(info.get_transition_classes()), span(info.get_log_time_boundaries()), [span(info.get_trace_time_boundaries(t)) for t in log],
                stats(info.get_log_attribute_info()), stats(info.get_trace_attribute_info()), stats(info.get_event_attribute_info()), stats(info.get_meta_attribute_info())]
    return ask


def extensions(log):
    return [[p, sorted(x.get_prefix() for x in a.get_extensions())] for p, a in there_and_back(list(everything(log))) if p != ["log"]]


def accessors(part):
    def ask(log):
        out = []
        for p, x in there_and_back(list(everything(log))):
            for a in sorted(acc.STEM)[part::3]:
                try:
                    out.append([p, a, acc.answer(a, acc.extract(a, x))])
                except Exception as error:
                    out.append([p, a, type(error).__name__])
        return out
    return ask


def costs(log):
    from opyenxes.extension.std.XCostExtension import XCostExtension
    out = []
    for p, x in there_and_back(elements(log)):
        for n in ("extract_nested_amounts", "extract_nested_types", "extract_nested_drivers", "extract_amounts", "extract_types", "extract_drivers"):
            got = getattr(XCostExtension(), n)(x)
            out.append([p, n, sorted([repr(k), repr(v)] for k, v in got.items())])
    return out


def texts(log):
    return [[p, str(a)] for p, a in there_and_back(attributes(log)) if not a.get_attributes() and not hasattr(a, "get_collection")]


def compare(log):
    few = [a for _, a in attributes(log)][:9]
    return [[[a == b, a.get_key() <= b.get_key()] for b in few] for a in few]


def order(log):
    few, out = [a for _, a in attributes(log) if not hasattr(a, "get_collection")][:12], []
    for a in few:
        for b in few:
            if snap.typ(a) == snap.typ(b):
                got = a.compare_to(b)
                out.append([0 if got == 0 else 1 if got > 0 else -1, a < b])
    return out


def hashes(log):
    few = [a for _, a in attributes(log)][:12]
    return [[hash(a) == hash(a.clone()), a == a.clone()] for a in few]


def copies(log):
    return snap.full_log(log.clone())


def types(log):
    from opyenxes.utils.XAttributeUtils import XAttributeUtils
    return [[p, XAttributeUtils.get_type_string(a), XAttributeUtils.get_type(a).__name__] for p, a in there_and_back(attributes(log))]


def prototypes(log):
    from opyenxes.utils.XAttributeUtils import XAttributeUtils
    out = []
    for p, a in attributes(log):
        got = snap.snap_attr(XAttributeUtils.derive_prototype(a))
        out.append([p, dict(got, v="") if got["t"] == "id" else got])
    return out


def names(log):
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    m = XGlobalAttributeNameMap()
    return [[p, m.map_safely(a, "EN"), m.map_safely(a, "DE")] for p, a in there_and_back(attributes(log))]


def wrapped(log):
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    import drv.p31 as p31
    out = []
    for t in log:
        for e in t:
            w, row = XExtendedEvent.wrap(e), []
            for a, (g, _) in sorted(p31.METHODS.items()):
                try:
                    row.append(acc.answer(a, getattr(w, g)()))
                except Exception as error:
                    row.append(type(error).__name__)
            out.append(row)
    return out


def bounds(log):
    from opyenxes.info.XTimeBounds import XTimeBounds
    out = []
    for t in log:
        b = XTimeBounds()
        for e in t:
            b.register(e)
        out.append([str(b.get_start_date()), str(b.get_end_date())])
    return out


def shape(log):
    return [len(log), [len(t) for t in log], [x.has_attributes() for _, x in everything(log)], snap.features(log), sorted(x.get_prefix() for x in log.get_extensions()),
            [[c.name(), c.get_defining_attribute_keys()] for c in log.get_classifiers()]]


QUESTIONS = {"xes": document("XesXml", False), "xes bytes": document("XesXml", True), "mxml": document("XMxml", False), "mxml bytes": document("XMxml", True),
             "own classes": own_classes, "summary": summary(None), "extensions": extensions, "costs": costs, "texts": texts, "equal": compare, "order": order, "hashes": hashes,
             "copies": copies, "types": types, "prototypes": prototypes, "names": names, "wrapped": wrapped, "bounds": bounds, "shape": shape}
for n_ in CLASSIFIERS:
    QUESTIONS["classes " + n_] = classes(n_)
    QUESTIONS["summary " + n_] = summary(n_)
for n_ in range(3):
    QUESTIONS["accessors %d" % n_] = accessors(n_)


def answer(q, log):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return snap.digest(re.sub("at 0x[0-9a-f]+", "", json.dumps(QUESTIONS[q](log), sort_keys=True)))
        except Exception as error:
            return "error " + type(error).__name__


def anew(rng, q, log):
    """Asks mostly with classifiers of its own."""
    if rng.random() < .2:
        return answer(q, log)
    was = dict(MADE)
    MADE.clear()
    try:
        return answer(q, log)
    finally:
        MADE.clear()
        MADE.update(was)


# ---- changes: each gives the way back

KEYS = ["concept:name", "lifecycle:transition", "org:resource", "time:timestamp", "cost:total", "cost:type", "a", "b", "micro:level", "semantic:modelReference"]


def priced(rng, k, depth=0):
    """An attribute with costs inside."""
    parts = [snap.attr("cost:amount", "continuous", "f" + repr(rng.choice((0.5, 1.0, 20.0, -3.0)))), snap.attr("cost:type", "literal", "s" + enc(rng.choice("xyz"))),
             snap.attr("cost:driver", "literal", "s" + enc(rng.choice("xyz")))]
    parts = rng.sample(parts, rng.randrange(1, 4))
    if depth < 2 and rng.random() < .4:
        parts.append(priced(rng, rng.choice("abc"), depth + 1))
    return snap.attr(k, "literal", "s" + enc("x"), m=snap.amap(*parts))


def change(rng, log):
    f, back = rng.random(), None
    every = list(everything(log))
    spots = [x for p, x in every if not p[0] in ("gt", "ge") and not hasattr(x, "get_collection")] or [log]
    el = rng.choice([log] * 1 + [e for t in log for e in t] * 2 + spots)
    valued = [a for _, a in attributes(log) if hasattr(a, "set_value") and snap.typ(a) not in ("list", "container")]
    events = [e for t in log for e in t]
    plain = [a for k in ("concept:name", "concept:name", "org:resource", "lifecycle:transition", "a") for e in events[:1] for a in [e.get_attributes().get(k)] if a is not None and snap.typ(a) == "literal"]
    if plain and rng.random() < .3:        # in place, where classes look
        a = rng.choice(plain)
        was = a.get_value()
        a.set_value(rng.choice([v for v in ("x", "y", "z", "complete", "start", "suspend") if v != was]))
        return lambda: a.set_value(was)
    if events and rng.random() < .3:        # the first event or what is in it
        el = events[0]
        inner = [a for a in el.get_attributes().values() if hasattr(a, "set_value") and snap.typ(a) not in ("list", "container")]
        valued = inner or valued
    costs_ = [a for a in valued if a.get_key().startswith("cost:") and snap.typ(a) in ("continuous", "literal")]
    if f < .3 and valued:
        a = rng.choice(costs_ if costs_ and rng.random() < .4 else valued)
        was, t = a.get_value(), snap.typ(a)
        v, d = gen.value(rng, t)
        a.set_value(snap.value_of(snap.attr("k", t, v, d)))
        return lambda: a.set_value(was)
    if f < .6:
        m = el.get_attributes()
        k = rng.choice(KEYS)
        t = {"time:timestamp": "timestamp", "cost:total": "continuous", "micro:level": "discrete"}.get(k, "literal")
        r = gen.tree(rng, rng.randrange(2), 2, k=k, t=t if rng.random() < .9 else "literal")
        if k == "lifecycle:transition":
            r["v"] = "s" + enc(rng.choice(acc.STATES))
        if k in ("a", "b") and rng.random() < .6:
            r = priced(rng, k)
        a, was = snap.build_attr(r), m.get(k)
        m[k] = a

        def back():
            if was is None:
                del m[k]
            else:
                m[k] = was
        return back
    if f < .7:
        m = el.get_attributes()
        if len(m):
            k = rng.choice(sorted(m))
            was = m[k]
            del m[k]
            return lambda: m.__setitem__(k, was)
    if f < .78 and len(log):
        t = rng.choice(list(log))
        e = snap.build_event({"m": gen.amap_of(rng, 3, 1)})
        if rng.random() < .5:
            e.get_attributes()["concept:name"] = snap.build_attr(snap.attr("concept:name", "literal", "s" + enc(rng.choice("xyz"))))
        t.append(e)
        return lambda: t.pop() and None
    if f < .84:
        t = snap.build_trace({"m": gen.amap_of(rng, 2, 1), "ev": [{"m": gen.amap_of(rng, 2, 1)} for _ in range(rng.randrange(3))]})
        log.append(t)
        return lambda: log.pop() and None
    if f < .9 and any(len(t) > 1 for t in log):
        t = rng.choice([t for t in log if len(t) > 1])
        t[0], t[-1] = t[-1], t[0]

        def swap():
            t[0], t[-1] = t[-1], t[0]
        return swap
    g = rng.choice((log.get_global_trace_attributes(), log.get_global_event_attributes(), log.get_classifiers()))
    g.append(snap.build_classifier("new", ["a"]) if g is log.get_classifiers() else snap.build_attr(gen.tree(rng, 1)))
    return lambda: g.pop() and None


def execute(case):
    rng = random.Random(case["seed"])
    recipe = gen.log(rng, traces=case["size"], events=case["size"] + 1, attrs=4, depth=2)
    for t in recipe["tr"]:
        for e in t["ev"]:
            for k in rng.sample(KEYS, 3):
                if k in ("concept:name", "lifecycle:transition", "org:resource", "a"):
                    e["m"].update(snap.amap(snap.attr(k, "literal", "s" + enc(rng.choice(("x", "y", "complete", "start"))))))
            if rng.random() < .4:
                e["m"].update(snap.amap(priced(rng, rng.choice("ab"))))
    MADE.clear()
    few = rng.sample(sorted(QUESTIONS), case.get("few") or len(QUESTIONS))
    log, evs, undo = snap.build_log(recipe), [], {}
    for op, n in case["ops"]:
        if op == "edit":
            # with an even count the change is there, with an odd one undone; last made, first undone
            if undo.get(n):
                for k in [k for k in reversed(list(undo)) if undo[k]]:
                    undo[k].pop()()
                    if k == n:
                        break
                undo = {k: v for k, v in undo.items() if v}
            else:
                back = change(random.Random(case["es"][n - 1]), log)
                undo.pop(n, None)
                undo[n] = [back]
            evs.append({"op": "edit"})
            continue
        q = case["qs"][n - 1] if case["qs"] else rng.choice(few)
        data, was = snap.snap_log(log), snap.state(log)
        s = snap.digest([snap.full_log(log), snap.features(log)])
        a = answer(q, log)
        kept = snap.state(log) == was and snap.digest([snap.full_log(log), snap.features(log)]) == s
        evs.append({"op": "look", "q": q, "s": s, "a": a, "kept": kept, "fresh": anew(rng, q, snap.build_log(data))})
    return evs
