import io
import os

import gen
import snap
from snap import attr, amap, empty_log
from vlib import enc, dec

import drv.p01 as p01

TR = "Tr_P06"
CHUNKS = 2
MC = [{"module": "MC_P06", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
  Keys = {"a", "concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "semantic:modelReference"}
INIT Init
NEXT Next
VIEW View
INVARIANTS Trip Emitted
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every log of up to four building steps emitted by the model checker, every interesting value of every type at every "
        "level, every transition in several spellings, all combinations of resource, role and group, and seeded random logs; "
        "each is written as MXML, read back and compared with what MXML must carry")
ASSUMPTIONS = ["timestamps and model references have the type their extension gives them; the standard attributes of events and names are not blank",
               "texts hold no carriage return (XML line ends) and nothing XML 1.0 cannot carry",
               "nothing is claimed of a key path that two attributes of an element claim"]
STDKEYS = ("concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp", "semantic:modelReference")
TRANS = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip", "manualskip"]


def plain(v):
    return dec(v[1:]).replace("\r", "").replace("\u00a0", "").replace("\u0085", "").replace("\u2029", "").replace("\u2028", "")


def tidy(rng, log):
    """Bring a random log into the domain."""
    def lit(k, v):
        return attr(k, "literal", "s" + enc(v))

    def clean(a, top):
        a = dict(a)
        k = plain("s" + a["k"]).strip() or "k"
        a["k"] = enc(k)
        if k in STDKEYS[:-2] and a["t"] != "literal" and rng.random() < .4:
            pass
        elif k in STDKEYS[:-2] or k == "semantic:modelReference":
            v = plain(a["v"]) if a["t"] == "literal" else ""
            if not v.strip():
                v = rng.choice(("v", "two words", "\u00e4"))
            if k == "lifecycle:transition":
                v = rng.choice((rng.choice(TRANS), rng.choice(TRANS).upper(), " %s " % rng.choice(TRANS), "odd", "My Type", "UNKNOWN", "unknown", "Complete!", v))
            a.update(t="literal", v="s" + enc(v), d=[], c=[])
        elif k == "time:timestamp":
            a.update(t="timestamp", v="d", d=a["d"] or gen.stamp(rng), c=[])
        elif a["t"] == "literal":
            a["v"] = "s" + enc(plain(a["v"]))
        a["m"] = cmap(a["m"]) if a["t"] not in ("list", "container") else {}
        if a["t"] not in ("list", "container") and rng.random() < .1:
            r = lit("semantic:modelReference", rng.choice(("http://x/y#z", "urn:a urn:b")))
            a["m"][r["k"]] = r
        a["c"] = [clean(c, False) for c in a["c"]]
        return a

    def cmap(m, top=False):
        return {b["k"]: b for b in (clean(a, top) for a in m.values())}
    log["m"] = cmap(log["m"], True)
    log["tr"] = [{"m": cmap(t["m"], True), "ev": [{"m": cmap(e["m"], True)} for e in t["ev"]]} for t in log["tr"]]
    return log


def odd(rng, k):
    """A standard attribute of another type."""
    return gen.tree(rng, 1, k=k, t=rng.choice(("discrete", "continuous", "boolean", "id", "timestamp", "list", "container")))


def spice(rng, log):
    """Give the events the standard attributes often."""
    for t in log["tr"]:
        for e in t["ev"]:
            for k in STDKEYS:
                if rng.random() < .08 and k in STDKEYS[:-2]:
                    e["m"][enc(k)] = odd(rng, k)
                elif rng.random() < .4:
                    e["m"][enc(k)] = attr(k, "literal", "s" + (enc(plain("s" + enc(gen.text(rng, 12)))).strip() or "v"))
    for m in [log["m"]] + [t["m"] for t in log["tr"]]:
        for k in ("concept:name", "semantic:modelReference"):
            if rng.random() < .1 and k == "concept:name":
                m[enc(k)] = odd(rng, k)
            elif rng.random() < .5:
                m[enc(k)] = attr(k, "literal", "s" + (enc(plain("s" + enc(gen.text(rng, 12)))).strip() or "v"))
    return log


def cases(ctx):
    rng = ctx.rng("p06")
    out = []

    def add(name, logs, size):
        for i in range(0, len(logs), size):
            out.append({"id": "{}-{:04d}".format(name, i // size), "logs": logs[i:i + size]})
    mc = []
    for h in sorted(ctx.hist["MC_P06"], key=str):
        g = dict(empty_log(), **h)
        p01.fix(g)
        mc.append(g)
    if not ctx.thorough:
        mc = rng.sample(mc, min(len(mc), 2500))
    add("mc", mc, 25)
    sys = []
    for a in gen.each_type():
        for place, g in p01.everywhere(a):
            if place in ("log", "trace", "event", "nested", "deep"):
                sys.append(tidy(rng, g))
    for k in gen.KEYS + ["a b", "k" * 200]:
        for place, g in p01.everywhere(attr(k, "literal", "sv")):
            if place in ("log", "trace", "event", "nested"):
                sys.append(tidy(rng, g))
    for t in TRANS + ["odd", "unknown", "UNKNOWN", "My Type", "pi-abort", "completed", "auto skip"]:
        for v in (t, t.upper(), t.capitalize(), " " + t, t + "\n"):
            g = empty_log()
            g["tr"] = [{"m": {}, "ev": [{"m": amap(attr("lifecycle:transition", "literal", "s" + enc(v)))}]}]
            sys.append(g)
    for bits in range(16):
        g = empty_log()
        m = [attr(k, "literal", "s" + k[4:7]) for i, k in enumerate(("org:resource", "org:role", "org:group")) if bits >> i & 1]
        if bits & 8:
            m = [dict(a, m=amap(attr("semantic:modelReference", "literal", "sr"), attr("z", "literal", "sq"))) for a in m]
        g["tr"] = [{"m": {}, "ev": [{"m": amap(*m)}, {"m": {}}]}]
        sys.append(g)
    add("sys", sys, 25)
    add("rnd", [tidy(rng, spice(rng, gen.log(rng, traces=4, events=4, attrs=4, depth=rng.choice((1, 2, 3)), line_breaks=rng.random() < .2)))
                for _ in range(ctx.n(400, 8000))], 5)
    add("large", [tidy(rng, gen.large_log(rng, i)) for i in range(ctx.n(12, 200))], 1)
    add("long", [tidy(rng, g) for g in gen.long_logs(rng)[:4]], 1)
    for i, c in enumerate(out):
        c["io"] = ("text", "bytes", "file")[i % 3]
    return out


def trip(log, how, name):
    from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    if how == "file":
        p = os.path.join(os.environ["VERIF_SCRATCH"], name + ".mxml")
        try:
            with open(p, "w") as f:
                XMxmlSerializer().serialize(log, f)
            with open(p) as f:
                return XMxmlParser().parse(f)
        finally:
            os.remove(p)
    o = io.StringIO()
    XMxmlSerializer().serialize(log, o)
    return XMxmlParser().parse(io.StringIO(o.getvalue()) if how == "text" else io.BytesIO(o.getvalue().encode("utf-8")))


def execute(case):
    ev = []
    for g in case["logs"]:
        log = snap.build_log(g, link=len(ev) % 2 == 1)
        before = snap.full_log(log)
        low = [[enc(dec(e["m"].get("lifecycle:transition", {"v": "s"})["v"][1:]).lower()) for e in t["ev"]] for t in before["tr"] if t["ev"]]
        e = {"op": "trip", "err": "", "n": 0, "before": before, "after": before, "got": before, "low": low}
        state = snap.state(log)
        try:
            got = trip(log, case["io"], case["id"])
            e["after"] = snap.full_log(log)
            if state != snap.state(log):
                e["after"] = dict(e["after"], cl=["changed"])
            e["n"] = len(got)
            e["got"] = snap.snap_log(got[0])
        except Exception as x:
            e["err"] = enc("{}: {}".format(type(x).__name__, x)[:200])
        ev.append(e)
    return ev
