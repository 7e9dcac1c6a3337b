"""The extension cache."""
import importlib
import os
import random
import shutil
import socket
import struct
import tempfile
import threading
import time
from http.server import BaseHTTPRequestHandler, HTTPServer
from pathlib import Path
from urllib.parse import unquote, urlparse

from vlib import enc

TR = "Tr_P25"
CHUNKS = 2
FORK = True
MC = [{"module": "MC_P25", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS OncePerUri NoStaleLeft
PROPERTIES Kept FailureHarmless OthersStay
CHECK_DEADLOCK FALSE
""" % (5 if tier == "thorough" else 4)}]
RULE = ("every history of downloads (served or failing), ageing, broken or replaced files, registrations and loads up to the bound; seeded longer ones over a dozen or 50 definitions, nine "
        "URI shapes (trailing slashes, suffix given or not, escapes), file and HTTP sources, six failures (missing, server error, refused, cut short, reset, unknown scheme), ages "
        "around thirty days and in the future, files in the cache folder of every suffix case, directories, stale bystanders in sub, support and home folders; each in a fresh "
        "process with a home folder of its own, with and without an existing cache folder")
ASSUMPTIONS = ["the home folder is writable", "ages are at least ten minutes from the thirty days' limit"]
DAY = 86400
STD = "http://www.xes-standard.org/concept.xesext"


def setup():
    for m in ("extension.XExtensionManager", "extension.XExtensionParser", "extension.XExtension", "utils.XRuntimeUtils"):
        importlib.import_module("opyenxes." + m)


def cases(ctx):
    rng = ctx.rng("p25")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P25"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(700, 10000)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "ops": h, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(200, 4000)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    return out


def definition(uri, name, pad=0, tail=""):
    return ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xesextension name=\"{}\" prefix=\"p\" uri=\"{}\">\n<!--{}-->"
            "<event><string key=\"k\"><alias mapping=\"EN\" name=\"Key\"/></string></event>{}</xesextension>\n").format(name, uri, "\u00e4x" * pad, tail).encode()


def contents(rng, small):
    """Pairs of what a content is and its bytes."""
    out = [[{"good": True, "uri": u, "name": n}, definition(u, n, rng.choice((0, 3, 511, 2000)))] for u, n in (("http://x.org/u1.xesext", "one"), ("http://x.org/u2.xesext", "two"), ("http://x.org/u1.xesext", "other one"))]
    if not small:
        out += [[{"good": True, "uri": u, "name": n}, definition(u, n, rng.choice((0, 40000)))] for u, n in (("http://x.org/U1.xesext", "upper"), (STD, "Mine"), ("urn:z", "z"), ("http://x.org/u3", "three"), ("http://x.org/u6", "one"), ("http://x.org/u7", "Concept"))]
        out[3][1] = out[3][1].replace(b"\n", b"\r\n")
        out[4][1] = out[4][1].replace(b"\n", b"\r")
        for u in range(45 if rng.random() < .1 else 0):
            out.append([{"good": True, "uri": "http://x.org/crowd{}".format(u), "name": "crowd {}".format(u)}, definition("http://x.org/crowd{}".format(u), "crowd {}".format(u))])
    bad = [b"", b"<xesextension", b"\x00\xff\xfe" * 700, b"<?xml version=\"1.0\"?><other/>", b"<xesextension name=\"n\" prefix=\"p\"/>", b"<event><string key=\"k\"/></event>",
           definition("http://x.org/u4", "four")[:-9], definition("http://x.org/u4", "four", 600)[:1024], b"<xesextension name=\"a\" prefix=\"b\" uri=\"http://x.org/u4\"><string key=\"k\"/></xesextension>"]
    for b in [rng.choice(bad)] if small else rng.sample(bad, 4):
        out.append([{"good": False, "uri": "", "name": ""}, b])
    return out


class Server:
    """Serves bytes under paths as told."""

    def __init__(self):
        me = self

        class H(BaseHTTPRequestHandler):
            def do_GET(self):
                how, data = me.plan
                if how in ("missing", "error"):
                    self.send_error(404 if how == "missing" else 500)
                    return
                if how == "moved":
                    if "/elsewhere" not in self.path:
                        self.send_response(302)
                        self.send_header("Location", "/elsewhere/there.xesext")
                        self.end_headers()
                        return
                self.send_response(200)
                if how != "plain":
                    self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                if how == "cut":
                    self.wfile.write(data[:max(0, len(data) - 1 - len(data) // 3)])
                elif how == "reset":
                    self.wfile.write(data[:len(data) // 2])
                    self.wfile.flush()
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    self.connection.close()
                else:
                    self.wfile.write(data)

            def log_message(self, *_):
                pass

            def finish(self):
                try:
                    super().finish()
                except (OSError, ValueError):
                    pass

        class S(HTTPServer):
            def handle_error(self, *_):
                pass

            def server_bind(self):      # no name lookup
                import socketserver
                socketserver.TCPServer.server_bind(self)
                self.server_name, self.server_port = "localhost", self.server_address[1]
        self.plan = ("missing", b"")
        self.srv = S(("127.0.0.1", 0), H)
        self.base = "http://127.0.0.1:{}".format(self.srv.server_address[1])
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()


def execute(case):
    tmp = tempfile.mkdtemp()
    try:
        return run(case, random.Random(case["seed"]), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(case, rng, tmp):
    home = os.path.join(tmp, "home")
    os.makedirs(home)
    os.environ["HOME"] = home
    os.environ.pop("USERPROFILE", None)
    os.environ["no_proxy"] = "*"
    if rng.random() < .2:
        os.environ["USERPROFILE"] = home
        os.environ["HOME"] = os.path.join(tmp, "nowhere")
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    small = case["ops"] is not None
    cs = contents(rng, small)
    names = ["A.xesext", "B.xesext"] if small else ["A.xesext", "B.xesext", "a.xesext", "C.XESEXT", "D.XesExt", ".xesext", "\u00e4.xesext", "b%20c.xesext"]
    others = ["notes.txt"] if small else ["notes.txt", "A", "A.xesext.bak", "xesext", "A.xml", "A.xesext~"]
    known, evs, server = [], [], []
    cache = []

    def number(o):
        if o is None:
            return 0
        for i, x in enumerate(known, 1):
            if x is o:
                return i
        known.append(o)
        return len(known)

    def show(**ev):
        files = []
        for base, _, fs in os.walk(home):
            for n in fs:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    data = f.read()
                c = next((i for i, (_, b) in enumerate(cs, 1) if b == data), -1)
                rel = n if cache and base == cache[0] else "/" + os.path.relpath(p, home)
                files.append([enc(rel), c, int(time.time() - os.path.getmtime(p) > 30 * DAY)])
        m = XExtensionManager()
        regs, i = [], 0
        while m.get_by_index(i) is not None and i < 160:
            x = m.get_by_index(i)
            regs.append({"uri": enc(x.get_uri().geturl()), "obj": number(x), "name": enc(x.get_name())})
            i += 1
        uris = {c[0]["uri"] for c in cs} | {STD, "http://x.org/u4", "http://x.org/u5"}
        ev.update(files=sorted(files), regs=regs, by=[[enc(u), number(m.get_by_uri(urlparse(u)))] for u in sorted(uris)])
        evs.append(ev)

    def age(p, stale):
        t = time.time()
        os.utime(p, (t, t - (rng.choice((30 * DAY + 600, 31 * DAY, 400 * DAY, int(t) - 10)) if stale else rng.choice((0, 600, 15 * DAY, 30 * DAY - 600, -DAY)))))
        return stale

    def lay(p, c, stale):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(cs[c - 1][1])
        return age(p, stale)

    def fetch(name, c, how, segs=None):
        """cache_extension of a URI ending in the segments."""
        data = cs[c - 1][1]
        segs = segs or [name]
        if how in ("cut", "reset") and len(data) < 9:
            how = "missing"         # nothing to break off
        ok = how in ("file", "sized", "plain", "moved")
        rest = "/".join(segs)
        if how in ("file", "nofile"):
            d = tempfile.mkdtemp(dir=tmp)
            if ok:
                with open(os.path.join(d, unquote(segs[-1])), "wb") as f:
                    f.write(data)
            uri = Path(d).as_uri() + "/" + segs[-1]
        elif how == "refused":
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                uri = "http://127.0.0.1:{}/{}".format(s.getsockname()[1], rest)
        elif how == "scheme":
            uri = "nosuch://x.org/" + rest
        else:
            if not server:
                server.append(Server())
            server[0].plan = (how, data)
            uri = server[0].base + "/" + rest
        part = uri.split("/")
        XExtensionManager().cache_extension(urlparse(uri))
        show(op="fetch", segs=list(map(enc, part)), suffixed=[x for x in part if x][-1].endswith(".xesext"), c=c, ok=ok)

    good = ["file", "file", "sized", "plain", "moved"]
    bad = ["nofile", "nofile", "missing", "error", "refused", "cut", "reset", "scheme"]

    def register(uri):
        x = XExtension("mine", "m", urlparse(uri))
        XExtensionManager().register(x)
        show(op="reg", x={"uri": enc(uri), "obj": number(x), "name": "mine"})
    if rng.random() < .3:
        XExtensionManager()
    if rng.random() < .5:
        cache.append(XRuntimeUtils().get_extension_cache_folder())
        if rng.random() < .3:
            for n in range(rng.randrange(1, 3)):
                lay(os.path.join(cache[0], "sub.xesext" if n else "dir", "old.xesext"), 1, rng.random() < .7)
        for where in ("", ".OpenXES"):
            if rng.random() < .3:
                lay(os.path.join(home, where, rng.choice(("x.xesext", "A.xesext"))), rng.randrange(1, len(cs) + 1), True)
        if rng.random() < .1:
            os.makedirs(os.path.join(cache[0], "zero.xesext"), exist_ok=True)
            age(os.path.join(cache[0], "zero.xesext"), True)
    inside = not cache or os.path.realpath(cache[0]).startswith(os.path.realpath(home) + os.sep)
    show(op="begin", inside=inside)

    def ensure():
        if not cache:
            cache.append(XRuntimeUtils().get_extension_cache_folder())
            evs[0]["inside"] = os.path.realpath(cache[0]).startswith(os.path.realpath(home) + os.sep)

    def load():
        XExtensionManager().load_extension_cache()
        ensure()
        show(op="load")

    def dolay(name, c, stale):
        ensure()
        lay(os.path.join(cache[0], name), c, stale)
        show(op="lay", n=enc(name), c=c, stale=stale)
    if small:
        real = {"A": names[0], "B": names[1], "other": others[0]}
        http = rng.random() < .25
        for op in case["ops"]:
            if op[0] == "fetch":
                ensure() if rng.random() < .5 else None
                cached = bool(cache)
                if not cached:      # where it will be
                    cache.append(os.path.join(home, ".OpenXES", "ExtensionCache"))
                how = rng.choice(good if op[3] else bad) if http else "file" if op[3] else rng.choice(("nofile", "scheme"))
                fetch(real[op[1]], op[2], how, [rng.choice((real[op[1]], real[op[1]][:-7]))])
            elif op[0] == "age":
                n = real[op[1]]
                age(os.path.join(cache[0], n), True)
                with open(os.path.join(cache[0], n), "rb") as f:
                    data = f.read()
                show(op="lay", n=enc(n), c=next(i for i, (_, b) in enumerate(cs, 1) if b == data), stale=True)
            elif op[0] == "lay":
                dolay(real[op[1]], op[2], bool(op[3]))
            elif op[0] == "reg":
                register("http://x.org/{}.xesext".format(op[1]))
            else:
                load()
    else:
        crowd = [i for i, (c, _) in enumerate(cs, 1) if c["name"].startswith("crowd")]
        if crowd:
            ensure()
            for i in crowd:
                lay(os.path.join(cache[0], "crowd{}.xesext".format(i)), i, False)
                show(op="lay", n=enc("crowd{}.xesext".format(i)), c=i, stale=False)
            load()
        for _ in range(rng.randrange(2, 5) if crowd else rng.randrange(4, 14)):
            r = rng.random()
            c = rng.randrange(1, len(cs) + 1)
            if r < .35:
                if not cache:
                    cache.append(os.path.join(home, ".OpenXES", "ExtensionCache"))
                name = rng.choice((names[0], names[1], names[2], "b%20c.xesext", "A", "Z", "x.xml", "with.dot"))
                ok = rng.random() < .6
                how = rng.choice(good if ok else bad)
                segs = [name] if how in ("file", "nofile") else rng.choice(([name], ["d", name], [name, ""], ["a.xesext", "d", name]))
                fetch(name, c, how, segs)
            elif r < .6:
                dolay(rng.choice(names if rng.random() < .75 else others), c, rng.random() < .4)
            elif r < .7:
                register(rng.choice(("http://x.org/u1.xesext", "http://x.org/u2.xesext", "http://x.org/u5")))
            else:
                load()
        load()
    every = {f[0] for e in evs for f in e["files"]} | {enc(e["segs"][-1]) for e in evs if e["op"] == "fetch"}
    return {"ev": evs, "cs": [dict(c, uri=enc(c["uri"]), name=enc(c["name"])) for c, _ in cs],
            "defs": sorted(n for n in every if n.lower().endswith(".xesext") and not n.startswith("/"))}
