import io
import os

import gen
import snap
import xesdoc as xd
from vlib import enc

TR = "Tr_P05"
CHUNKS = 4
MC = [{"module": "MC_P05", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxStarts = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS Counts NoEmptyTrace Legit
CHECK_DEADLOCK FALSE
""" % (8 if tier == "thorough" else 7)}]
RULE = ("every document of bounded size the reader machine admits and seeded random documents over the defined elements: "
        "several processes, empty instances, data at every level, repeated, missing and odd parts, texts split by comments, "
        "sections and references, entries with equal, falling, invalid and missing timestamps")
ASSUMPTIONS = ["documents are well-formed, elements stand where the format allows them, no text stands between elements",
               "a source stands before the processes and has a program; nothing is claimed for a missing instance id, a blank originator "
               "and the model reference of a timestamp"]

BAD = ["", "bad", "2017-13-01T00:00:00Z", "2017-02-30T10:00:00", "2017-01-01", "noon"]


def el(tag, at=None, text=None, kids=()):
    return {"tag": tag, "at": at or {}, "text": text, "kids": list(kids)}


LEAF = ("Attribute", "EventType", "WorkflowModelElement", "Originator", "Timestamp")


def events(n, out):
    out.append({"op": "start", "tag": n["tag"], "at": {k: enc(v) for k, v in n["at"].items()}})
    if n["text"] is not None:
        out.append({"op": "chars", "text": enc(n["text"])})
    for k in n["kids"]:
        events(k, out)
    out.append({"op": "end", "tag": n["tag"]})
    return out


def chunks(rng, t):
    """Character data in pieces."""
    out = []
    for ch in t:
        r = rng.random()
        if ch in "<&":
            out.append("<![CDATA[%s]]>" % ch if r < .3 else {"<": "&lt;", "&": "&amp;"}[ch])
        elif ch == ">":
            out.append("&gt;")
        elif ch == "\r":
            out.append("&#13;")
        elif r < .04:
            out.append("&#%d;" % ord(ch))
        elif r < .07:
            out.append("<!-- c -->" + ch)
        elif r < .08 and ch not in "]":
            out.append("<![CDATA[%s]]>" % ch)
        else:
            out.append(ch)
    return "".join(out)


def text(rng, n):
    pad = rng.choice(("", "\n", "\n\t", "<!-- x -->", " "))
    parts = ["<" + n["tag"]]
    items = list(n["at"].items())
    rng.shuffle(items)
    for k, v in items:
        q = rng.choice("\"'")
        parts.append(" %s=%s%s%s" % (k, q, xd.esc(rng, v, q), q))
    if n["text"] is None and not n["kids"] and rng.random() < .5:
        return "".join(parts) + "/>"
    parts.append(">")
    if n["text"] is not None:
        parts.append(chunks(rng, n["text"]))
    for k in n["kids"]:
        parts += [pad, text(rng, k)]
    if n["kids"]:
        parts.append(pad)
    parts.append("</%s>" % n["tag"])
    return "".join(parts)


def document(rng, root):
    return rng.choice(("", '<?xml version="1.0" encoding="UTF-8"?>\n', "<!-- mxml -->\n")) + text(rng, root) + rng.choice(("", "\n"))


def word(rng, blank=.05):
    r = rng.random()
    if r < blank:
        return rng.choice(("", " ", "\n\t "))
    t = rng.choice(gen.LITERALS) if r < .4 else gen.text(rng, 14, rng.random() < .1)
    t = t.strip() or "w"
    return rng.choice(("", "", " ", "\n")) + t + rng.choice(("", "", " ", "\n  "))


def attname(rng):
    return rng.choice((gen.key(rng), rng.choice("ab"), " padded ")).strip(" \u00a0\u0085\u2028\u2029") or "k"


def with_ref(rng, at, p=.2):
    if rng.random() < p:
        at["modelReference"] = rng.choice(("http://a.b/c#d", "urn:x urn:y", "<r>", ""))
    return at


def data(rng, p=.6):
    if rng.random() > p:
        return []
    return [el("Data", kids=[el("Attribute", with_ref(rng, {"name": rng.choice(("", "", " ")) + attname(rng)}), word(rng, .15)) for _ in range(rng.randrange(4))])
            for _ in range(rng.choice((1, 1, 2)))]


def stamp_text(rng):
    v, _ = "", 0
    s = gen.stamp(rng)
    t = "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}".format(*s[:6])
    if rng.random() < .6:
        t += ".%03d" % (s[6] // 1000)
    if s[7] != snap.NAIVE:
        t += "Z" if s[7] == 0 else "{}{:02}:{:02}".format("-" if s[7] < 0 else "+", *divmod(abs(s[7]), 60))
    return t


def entry(rng):
    kids = data(rng, .4)
    if rng.random() < .9:
        kids.append(el("WorkflowModelElement", with_ref(rng, {}), word(rng)))
    if rng.random() < .9:
        r = rng.random()
        if r < .3:
            kids.append(el("EventType", with_ref(rng, {"unknowntype": rng.choice(("odd", "My Type", "UNKNOWN", "unknown", "\u00e4"))}),
                           rng.choice(("unknown", "", None, "complete"))))
        else:
            kids.append(el("EventType", with_ref(rng, {} if r < .9 else {"unknowntype": ""}),
                           rng.choice(("complete", "start", " schedule\n", "pi_abort", "", None, "unknown", "Complete", "other"))))
    if rng.random() < .6:
        kids.append(el("Originator", with_ref(rng, {}), word(rng)))
    if rng.random() < .8:
        kids.append(el("Timestamp", {}, rng.choice(("", " ", "\n")) + (rng.choice(BAD) if rng.random() < .15 else rng.choice(("2017-01-01T00:00:00Z", stamp_text(rng)))) + rng.choice(("", "\n "))))
    if rng.random() < .1 and kids:
        kids.append(rng.choice(kids))
    if rng.random() < .5:
        rng.shuffle(kids)
    return el("AuditTrailEntry", kids=kids)


def rand_doc(rng, size):
    procs = []
    for _ in range(rng.choice((1, 1, 1, 2, 3, 0))):
        insts = []
        for _ in range(rng.randrange(size + 1)):
            kids = data(rng)
            kids += [entry(rng) for _ in range(rng.choice((0, 1, size, rng.randrange(size + 1))))]
            if rng.random() < .3:
                rng.shuffle(kids)
            at = with_ref(rng, {"id": rng.choice(("1", "i 1", " x", "\u00e4", "<>&\"'", ""))})
            if rng.random() < .1:
                del at["id"]
            if rng.random() < .5:
                at["description"] = rng.choice(("d", " d ", "", " ", "<&>", at.get("id", "d")))
            insts.append(el("ProcessInstance", at, kids=kids))
        at = with_ref(rng, {"id": rng.choice(("P", "p q", "\u4e2d", "none"))} if rng.random() < .85 else {})
        if rng.random() < .6:
            at["description"] = rng.choice(("d", " d ", "", "<&>", "process with id P", at.get("id", "d")))
        kids = data(rng) + insts
        if rng.random() < .2:
            rng.shuffle(kids)
        procs.append(el("Process", at, kids=kids))
    src = [el("Source", with_ref(rng, {"program": rng.choice(("name", "x <y>", "\u00e4"))}), kids=data(rng, .5))] if rng.random() < .7 else []
    extra = data(rng, .1)
    return el("WorkflowLog", {"description": "x"} if rng.random() < .3 else {}, kids=extra + src + procs)


def from_history(h):
    root, stack = None, []
    for tag, x in h:
        if tag == "":
            stack.pop()
            continue
        at = {"Source": {"program": "p"}, "Process": {"id": "i", "description": "d"} if x == "d" else {},
              "ProcessInstance": {"id": "i", "modelReference": "r"} if x == "m" else {"id": ""}, "Attribute": {"name": "n"},
              "EventType": {"unknowntype": "odd"} if x == "u" else {}}.get(tag, {})
        t = None
        if tag in LEAF:
            t = {"1": "2017-01-01T00:00:01Z", "2": "2017-01-01T00:00:02+01:00", "bad": "soon"}[x] if tag == "Timestamp" else "unknown" if x == "u" else x
        n = el(tag, at, t)
        if stack:
            kids = stack[-1]["kids"]
            if tag == "Attribute":
                if not (kids and kids[-1]["tag"] == "Data"):
                    kids.append(el("Data"))
                kids = kids[-1]["kids"]
            kids.append(n)
        else:
            root = n
        stack.append(n)
    return root


def cases(ctx):
    rng = ctx.rng("p05")
    out = []

    def add(name, i, n):
        out.append({"id": "{}-{:05d}".format(name, i), "text": document(rng, n), "ev": events(n, []), "io": ("text", "bytes", "file")[i % 3]})
    hs = sorted(ctx.hist["MC_P05"], key=str)
    for i, h in enumerate(hs if len(hs) < 3000 or ctx.thorough else rng.sample(hs, 3000)):
        add("mc", i, from_history(h))
    for i in range(ctx.n(500, 12000)):
        add("rnd", i, rand_doc(rng, rng.choice((1, 2, 3, 5))))
    n = rand_doc(rng, 3)
    n["kids"] = [el("Process", {"id": "p"}, kids=[el("ProcessInstance", {"id": str(i)}, kids=[entry(rng) for _ in range(40)]) for i in range(15)])]
    add("big", 0, n)
    n = rand_doc(rng, 1)
    n["kids"] = [el("Process", {"id": "p"}, kids=[el("ProcessInstance", {"id": str(i)}, kids=[el("AuditTrailEntry", kids=[el("WorkflowModelElement", {}, str(j))]) for j in range(m)])
                                                  for i, m in ((1, 1100), (2, 1))])]
    add("long", 0, n)
    n = rand_doc(rng, 1)
    n["kids"] = [el("Process", {"id": str(p)}, kids=[el("ProcessInstance", {"id": str(i)}, kids=[el("AuditTrailEntry")]) for i in range(150)]) for p in range(3)]
    add("long", 1, n)
    n = rand_doc(rng, 1)
    t = "".join(gen.text(rng, 20) for _ in range(1500)).strip()
    dat = el("Data", kids=[el("Attribute", {"name": "a%d" % i}, "v%d" % i) for i in range(250)] + [el("Attribute", {"name": "long"}, t)])
    n["kids"] = [el("Process", {"id": t[:5000].strip(), "description": t[3000:9000]}, kids=[dat, el("ProcessInstance", {"id": "i"}, kids=[
        dat, el("AuditTrailEntry", kids=[dat, el("WorkflowModelElement", {}, t), el("EventType", {}, t[:3000].strip()), el("Originator", {}, t[50:6000].strip())])])])]
    add("long", 2, n)
    return out


def execute(case):
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    t = case["text"]
    e = {"op": "parsed", "err": "", "logs": []}
    try:
        if case["io"] == "file":
            p = os.path.join(os.environ["VERIF_SCRATCH"], case["id"] + ".mxml")
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(t)
            with open(p, encoding="utf-8") as f:
                got = XMxmlParser().parse(f)
            os.remove(p)
        elif case["io"] == "text":
            got = XMxmlParser().parse(io.StringIO(t))
        else:
            got = XMxmlParser().parse(io.BytesIO(t.encode("utf-8")))
        e["logs"] = [snap.snap_log(g) for g in got]
    except Exception as x:
        e["err"] = enc("{}: {}".format(type(x).__name__, x)[:200])
    return case["ev"] + [e]
