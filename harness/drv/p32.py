"""Logging."""
import contextlib
import hashlib
import io
import os
import random
import shutil
import tempfile
from pathlib import Path
from urllib.parse import urlparse

import gen
import snap
from vlib import enc

TR = "Tr_P32"
CHUNKS = 2
MC = [{"module": "MC_P32", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS OnceOrDropped
PROPERTIES Apart Silent
CHECK_DEADLOCK FALSE
""" % (6 if tier == "thorough" else 5)}]
RULE = ("every history of listener changes (none, two listeners, one that switches) and messages with and without importance on two loggers up to the bound; seeded longer ones over "
        "up to four loggers and six listeners (static and bound methods, objects that test false, switching to others, to none, failing once told), odd, empty and long texts and importances; seeded library operations that log (both "
        "serializers, the MXML parser on unordered entries, caching, loading the cache) with the default, no, a recording and a silent listener in force, their results compared")
ASSUMPTIONS = ["importances are non-empty texts"]


def cases(ctx):
    rng = ctx.rng("p32")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P32"]), key=str)
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(3000, 40000)))
    for i in range(0, len(hist), 4):
        out.append({"id": "hist-{:05d}".format(i), "ops": hist[i:i + 4], "seed": rng.randrange(10**9)})
    for i in range(ctx.n(600, 8000)):
        out.append({"id": "long-{:04d}".format(i), "ops": None, "seed": rng.randrange(10**9)})
    for i in range(ctx.n(60, 900)):
        out.append({"id": "work-{:04d}".format(i), "ops": "work", "seed": rng.randrange(10**9), "fork": True})
    return out


def execute(case):
    from opyenxes.log.XLogging import XLogging
    from opyenxes.log.XStdoutLoggingListener import XStdOutLoggingListener
    rng = random.Random(case["seed"])
    if case["ops"] == "work":
        return {"ev": [work(rng)], "then": []}
    got, loggers, evs = [], [], []
    then = {"3": 1} if case["ops"] is not None else {"5": rng.choice((0, 1, 6)), "6": rng.choice((0, 2, 5, 6))}
    broken = () if case["ops"] is not None or rng.random() < .7 else (1, 5)     # listeners that fail once told
    current = []        # the logger a message was given to

    class Listener:
        def __init__(self, n):
            self.n = n

        def log(self, message, importance):
            got.append([self.n, message, importance])
            if str(self.n) in then:
                to = then[str(self.n)]
                current[-1].set_listener(listeners[to])
            if self.n in broken:
                raise rng.choice((ValueError, KeyError, OSError))("broken listener")

    class Static:
        def __init__(self, *given):
            if not given:
                raise TypeError("nothing given")

        @staticmethod
        def log(message, importance):
            got.append([4, message, importance])
    class Quiet(Listener, list):
        """A listener that is an empty list too, so that it tests false."""

        def __hash__(self):
            return self.n
    listeners = {0: None, 4: Static if rng.random() < .5 else Static(1)}
    for n in (1, 2, 3, 5, 6):
        listeners[n] = (Quiet if rng.random() < .3 else Listener)(n)

    def told(fn):
        """What the listeners were told and what was printed."""
        del got[:]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            try:
                fn()
            except (ValueError, KeyError, OSError) as x:
                if "broken listener" not in str(x):
                    raise
        return [[n, enc(m) if isinstance(m, str) else "?", "s" + enc(w) if isinstance(w, str) else "?"] for n, m, w in got], buf.getvalue()

    def new():
        loggers.append(XLogging())
        evs.append({"op": "new"})

    def change(i, l):
        x = (XStdOutLoggingListener() if rng.random() < .5 else XStdOutLoggingListener) if l == 99 else listeners[l]
        g, p = told(lambda: loggers[i - 1].set_listener(x))
        evs.append({"op": "set", "i": i, "to": l, "got": g, "printed": enc(p)})

    def log(i, text, imp):
        current.append(loggers[i - 1])
        if imp is None:
            g, p = told(lambda: loggers[i - 1].log(text))
        else:
            g, p = told(lambda: loggers[i - 1].log(text, imp))
        deaf = [1, p.replace(text, "", 1).count("DEBUG" if imp is None else imp)] if not text and p else None
        evs.append({"op": "log", "i": i, "text": enc(text), "imp": "N" if imp is None else "s" + enc(imp), "got": g, "printed": enc(p[:200]),
                    "out": deaf or [p.count(text), p.replace(text, "", 1).count("DEBUG" if imp is None else imp)]})
    if case["ops"] is not None:
        for h in case["ops"]:
            base = len(loggers)
            new()
            new()
            for k, op in enumerate(h):
                if op[0] == "set":
                    change(base + op[1], op[2])
                else:
                    log(base + op[1], "text no. {}".format(k), None if op[2] == "N" else op[2])
    else:
        for _ in range(rng.randrange(1, 4)):
            new()
        for k in range(rng.randrange(5, 25)):
            r = rng.random()
            if r < .05 and len(loggers) < 4:
                new()
            elif r < .4:
                change(rng.randrange(1, len(loggers) + 1), rng.choice((0, 1, 2, 4, 5, 6, 99)))
            else:
                text = "{}{} {}".format(rng.choice(("", "%s {} {0}", "\\", "two\nlines", "\u00e4<&>", "Importance: ", " ", "None")), gen.text(rng, 10), 1000 + k)
                if rng.random() < .1:
                    text = rng.choice(("long text " * 300 + text, text + "\nline" * 900, ""))
                imp = rng.choice((None, None, XLogging.Importance.DEBUG, XLogging.Importance.INFO, XLogging.Importance.WARNING, XLogging.Importance.ERROR, "odd weight", "error"))
                log(rng.randrange(1, len(loggers) + 1), text, imp)
    return {"ev": evs, "then": [[int(k), v] for k, v in sorted(then.items())]}


def work(rng):
    """One library operation under each listener."""
    from opyenxes.log.XLogging import XLogging
    recipe = gen.log(rng, traces=3, events=4)
    kind = rng.choice(("xes", "mxml", "parse", "cache", "load", "load", "stale"))
    seed = rng.randrange(10**9)
    tmp = tempfile.mkdtemp()
    first = XLogging.__init__
    digs = []

    class Deaf:
        @staticmethod
        def log(message, importance):
            pass

    class Recorder:
        def __init__(self):
            self.heard = []

        def __len__(self):
            return 0

        def log(self, message, importance):
            self.heard.append((message, importance))
    try:
        for n, listener in enumerate(("default", None, Recorder(), Deaf)):
            if listener != "default":
                def init(self, *a, _l=listener, **k):
                    first(self, *a, **k)
                    self.set_listener(_l)
                XLogging.__init__ = init
            home = os.path.join(tmp, "home{}".format(n))
            os.makedirs(home)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.environ["HOME"] = home
                os.environ.pop("USERPROFILE", None)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        out = hashlib.sha1(one(kind, recipe, random.Random(seed), home).encode()).hexdigest()
                except BaseException as e:
                    out = "failed {} {}".format(type(e).__name__, str(e))
                os.write(w, out.encode())
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                digs.append(f.read())
            os.waitpid(pid, 0)
            XLogging.__init__ = first
    finally:
        XLogging.__init__ = first
        shutil.rmtree(tmp, ignore_errors=True)
    return {"op": "work", "kind": kind, "dig": digs}


def one(kind, recipe, rng, home):
    import drv.p25 as p25
    if kind in ("xes", "mxml"):
        from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
        from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
        b = io.BytesIO()
        (XesXmlSerializer if kind == "xes" else XMxmlSerializer)().serialize(snap.build_log(recipe), b, True)
        import xml.etree.ElementTree as et
        return et.canonicalize(b.getvalue().decode("utf-8"))
    if kind == "parse":
        from opyenxes.data_in.XMxmlParser import XMxmlParser
        entries = "".join("<AuditTrailEntry><WorkflowModelElement>e{}</WorkflowModelElement><EventType>complete</EventType><Timestamp>20{:02}-01-01T00:00:00.000+00:00</Timestamp>"
                          "</AuditTrailEntry>".format(i, rng.randrange(10, 99)) for i in range(rng.randrange(2, 8)))
        doc = "<WorkflowLog><Process id=\"p\"><ProcessInstance id=\"i\">{}</ProcessInstance></Process></WorkflowLog>".format(entries)
        logs = XMxmlParser().parse(io.StringIO(doc))
        return repr([snap.digest(snap.snap_log(l)) for l in logs])
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    folder = XRuntimeUtils().get_extension_cache_folder()
    cs = p25.contents(rng, False)
    m = XExtensionManager()
    for i in range(rng.randrange(0, 5) if kind != "cache" else 2):
        data = rng.choice(cs)[1]
        if kind == "cache":
            src = os.path.join(home, "src{}.xesext".format(i))
            with open(src, "wb") as f:
                f.write(data)
            m.cache_extension(urlparse(Path(src).as_uri() + rng.choice(("", "", "x"))))
        else:
            p = os.path.join(folder, "f{}.xesext".format(i))
            with open(p, "wb") as f:
                f.write(data)
            if kind == "stale" and rng.random() < .5:
                os.utime(p, (0, 0))
    if kind != "cache":
        m.load_extension_cache()
    shown = []
    for i in range(40):
        x = m.get_by_index(i)
        if x is not None:
            shown.append((x.get_uri().geturl(), x.get_name()))
    files = []
    for n in sorted(os.listdir(folder)):
        with open(os.path.join(folder, n), "rb") as f:
            files.append((n, hashlib.sha1(f.read()).hexdigest()))
    return repr((sorted(shown), files))
