import gzip
import os
import shutil

import gen
import snap
from vlib import enc, dec

TR = "Tr_P04"
MC = [{"module": "MC_P04", "workers": 1, "cfg": lambda tier: """CONSTANTS
  MaxPieces = %d
INIT Init
NEXT Next
INVARIANTS AtMostOne BareSuffix OneAnswer
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}]
RULE = ("file names grown from pieces (suffixes in any case, bare suffixes, inner dots) against every reader; every "
        "advertised suffix of every writer; logs of many sizes written plain and compressed, read by the format's reader "
        "and the universal reader under name variants; good, foreign and broken contents under every kind of name with "
        "custom readers registered and the registry rebuilt in different object orders")
ASSUMPTIONS = ["the plain and decompressed documents are compared as canonical XML"]


def cases(ctx):
    rng = ctx.rng("p04")
    names = sorted({h[0] for h in ctx.hist["MC_P04"]})
    names += ["log.xes", "LOG.XES", "log.xes.gz", "a.b.xes", "x.xesx", "x.xes.gzz", "xes", "x.gz", "x.xes.gz.bak", "\u00e4.xes", "my log.mxml",
              "x.xes ", "log.xexs", ".xes.gz", "a.xml.gz", "a.mxml.GZ", "a.XML", "a.xml.xes", "a.xes.xml", "a.xes.mxml.gz", "a.mxml.xes.gz",
              "", "a", "archive.xes.zip", "x" * 200 + ".xez", "a/b.xes", "/tmp/log.mxml.gz", "C:\\logs\\x.XEZ"]
    names = list(dict.fromkeys(names))
    out = [{"id": "name-{:04d}".format(i // 200), "kind": "claim", "names": [enc(n) for n in names[i:i + 200]]} for i in range(0, len(names), 200)]
    out.append({"id": "writers", "kind": "writers"})
    for i in range(ctx.n(40, 300)):
        size = rng.choice((1, 2, 4))
        log = gen.log(rng, traces=size, events=size + 1, depth=2)
        for f in ("xes", "mxml"):
            rec = log if f == "xes" else mx(log)
            out.append({"id": "file-{:03d}-{}".format(i, f), "kind": "files", "format": f, "log": rec,
                        "name": rng.choice(("log", "LOG", "a.b", "\u00e4 b", "x.xes", "x.gz", "x.mxml"))})
    big = snap.empty_log()
    big["tr"] = [{"m": snap.amap(snap.attr("concept:name", "literal", "s" + enc("trace %d \u00e4" % i))),
                  "ev": [{"m": snap.amap(snap.attr("concept:name", "literal", "s" + enc("event %d" % j)))} for j in range(20)]} for i in range(ctx.n(60, 600))]
    for f in ("xes", "mxml"):
        out.append({"id": "file-big-" + f, "kind": "files", "format": f, "log": big, "name": "big"})
        out.append({"id": "file-empty-" + f, "kind": "files", "format": f, "log": snap.empty_log(), "name": "empty"})
    one = snap.empty_log()
    one["tr"] = [{"m": {}, "ev": [{"m": snap.amap(snap.attr("concept:name", "literal", "se"))}]}]
    opens = []
    for n in ("a.xes", "a.XES", "a.xes.gz", "a.xez", "a.Xez", "a.mxml", "a.xml", "a.XML", "a.mxml.gz", "a.txt", "a.gz", "a", "a.csv", "a.xes.txt", "a.csv.xes", "a.mxml.xes", "xes"):
        for content in ("xes", "mxml", "xesgz", "mxmlgz", "garbage", "cut", "empty", "gzgarbage", "other"):
            opens.append([n, content])
    for k in range(ctx.n(8, 40)):
        out.append({"id": "open-{:02d}".format(k), "kind": "open", "fork": True, "junk": rng.randrange(1, 4000), "log": one,
                    "custom": [[], ["good"], ["bad"], ["bad", "good"], ["good", "deaf"]][k % 5], "opens": rng.sample(opens, len(opens))})
    return out


def mx(log):
    """MXML has no place for non-standard shapes the serializer does not know; keep std attributes textual."""
    log = dict(log)

    def fix(m):
        return {k: (a if k not in ("concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp",
                                   "semantic:modelReference") else
                    (dict(a, t="literal", v=a["v"] if a["t"] == "literal" else "sx", d=[], c=[]) if k != "time:timestamp" else
                     dict(a, t="timestamp", v="d", d=[2017, 1, 2, 3, 4, 5, 6000, 60], c=[]))) for k, a in m.items()}
    log["m"] = fix(log["m"])
    log["tr"] = [{"m": fix(t["m"]), "ev": [{"m": fix(e["m"])} for e in t["ev"]]} for t in log["tr"]]
    return log


def readers():
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
    return {"xes": XesXmlParser(), "xesgz": XesXmlGZIPParser(), "mxml": XMxmlParser(), "mxmlgz": XMxmlGZIPParser()}


def writers():
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
    from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
    from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
    return {"xes": XesXmlSerializer(), "xesgz": XesXmlGZIPSerializer(), "mxml": XMxmlSerializer(), "mxmlgz": XMxmlGZIPSerializer()}


def answer(reader, path):
    """Digest of what a reader returns for a file, or fail."""
    f = open(path)
    try:
        res = reader.parse(f)
        if res is None:
            return "nothing"
        return snap.digest([("none" if x is None else x if isinstance(x, str) else snap.snap_log(x)) for x in res])
    except Exception:
        return "fail"
    finally:
        f.close()


def canon(data):
    import xml.etree.ElementTree as Et
    return snap.digest(Et.canonicalize(data.decode("utf-8") if isinstance(data, bytes) else data))


def write(writer, log, path):
    f = open(path, "w")
    try:
        writer.serialize(log, f)
    finally:
        f.close()


def execute(case):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    d = os.path.join(os.environ["VERIF_SCRATCH"], "files-" + case["id"])
    os.makedirs(d)
    try:
        return globals()["do_" + case["kind"]](case, d, XUniversalParser)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def do_claim(case, d, uni):
    ev, rs = [], readers()
    for n in case["names"]:
        err, claims, u = "", [], False
        try:
            claims = [k for k, r in rs.items() if r.can_parse(dec(n))]
            u = bool(uni.can_parse(dec(n)))
        except Exception as e:
            err = type(e).__name__
        ev.append({"op": "claim", "name": n, "claims": claims, "uni": u, "err": err})
    return ev


def do_writers(case, d, uni):
    from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
    ev = []
    found = list(writers().items())
    for w in XSerializerRegistry().get_available():
        names = [k for k, x in writers().items() if type(x) is type(w)]
        if names:
            found.append((names[0], w))
    for k, w in found:
        err, s = "", []
        try:
            s = [enc(x.lstrip(".")) for x in w.get_suffices()]
        except Exception as e:
            err = type(e).__name__
        ev.append({"op": "writer", "format": k, "suffixes": s, "err": err})
    return ev


def do_files(case, d, uni):
    ev, rs, ws, f = [], readers(), writers(), case["format"]
    log = snap.build_log(case["log"])
    for ps in ws[f].get_suffices():
        for gs in ws[f + "gz"].get_suffices():
            e = {"op": "files", "err": "", "plain": "", "unzipped": "", "fromplain": "", "fromgz": "", "uniplain": "", "unigz": ""}
            p, g = os.path.join(d, case["name"] + "." + ps), os.path.join(d, case["name"] + "." + gs)
            try:
                write(ws[f], log, p)
                write(ws[f + "gz"], log, g)
                with open(p, "rb") as h:
                    e["plain"] = canon(h.read())
                with gzip.open(g) as h:
                    e["unzipped"] = canon(h.read())
                e["fromplain"], e["fromgz"] = answer(rs[f], p), answer(rs[f + "gz"], g)
                e["uniplain"], e["unigz"] = answer(uni, p), answer(uni, g)
            except Exception as x:
                e["err"] = type(x).__name__ + str(x)[:80].replace('"', "'")
                e["err"] = enc(e["err"])
            ev.append(e)
    return ev


def do_open(case, d, uni):
    keep = [object() for _ in range(case["junk"])]
    from opyenxes.data_in.XParserRegistry import XParserRegistry

    class Custom:
        def __init__(self, kind):
            self.kind = kind

        def can_parse(self, name):
            return self.kind != "deaf" and name.endswith(".csv")

        def parse(self, file):
            if self.kind == "bad":
                raise ValueError("cannot read")
            return ["custom"]
    custom = {}
    for i, k in enumerate(case["custom"]):
        custom["{}{}".format(k, i)] = Custom(k)
        XParserRegistry().register(custom["{}{}".format(k, i)])
    rs = dict(readers(), **custom)
    log = snap.build_log(case["log"])
    data = {}
    for k, w in writers().items():
        p = os.path.join(d, "src")
        write(w, log, p)
        with open(p, "rb") as h:
            data[k] = h.read()
    data.update(garbage=b"this is no log <", cut=data["xes"][:len(data["xes"]) // 2], empty=b"", other=b"<a><b/></a>",
                gzgarbage=gzip.compress(b"nothing here"))
    ev = []
    for name, content in case["opens"]:
        p = os.path.join(d, name)
        with open(p, "wb") as h:
            h.write(data[content])
        res = {k: answer(r, p) for k, r in rs.items() if r.can_parse(p)}
        ev.append({"op": "open", "name": enc(name), "custom": [k for k, r in custom.items() if r.can_parse(name)], "res": res,
                   "got": answer(uni, p)})
        os.remove(p)
    del keep
    return ev
