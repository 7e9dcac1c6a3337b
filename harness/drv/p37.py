"""Streams that break: cut, damaged and failing sources, failing sinks and full disks."""
import contextlib
import gzip
import io
import json
import os
import random
import resource
import shutil

import gen
import snap

TR = "Tr_P37"
CHUNKS = 4
MC = [{"module": "MC_P37", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
INVARIANTS NeverPartial FailureTold Possible WholeWorks
PROPERTIES Afresh
CHECK_DEADLOCK FALSE
""" % (3 if tier == "thorough" else 2)}]
RULE = ("every sequence up to the bound of reads (whole, cut after each part, failing at each read) and writes (whole, failing at each write) by one reader and one writer, in each of the four "
        "formats; for sample documents every cut position, every bit-damaged byte of the compressed data, every failing read and write and every disk size; large ones sampled; by the format's "
        "own and the universal reader, from text and byte streams and files, delivered in pieces of any size")
ASSUMPTIONS = ["a document is complete with its last closing tag, a compressed one with its last byte", "damage is judged on compressed data, whose checksum tells it"]
FORMATS = ("xes", "mxml", "xesgz", "mxmlgz")
SUFFIX = {"xes": ".xes", "mxml": ".mxml", "xesgz": ".xes.gz", "mxmlgz": ".mxml.gz"}


def setup():
    import opyenxes.data_in.XUniversalParser
    import opyenxes.data_out.XSerializerRegistry


def cases(ctx):
    rng = ctx.rng("p37")
    out = []
    hist = [json.loads(h) for h in sorted({json.dumps(h) for h in ctx.hist["MC_P37"]})]
    top = max(map(len, hist))
    hist = [h for h in hist if len(h) == top]
    hist = rng.sample(hist, min(len(hist), ctx.n(900, 9000)))
    for i, h in enumerate(hist):
        out.append({"id": "hist-{:05d}".format(i), "how": "hist", "fmt": FORMATS[i % 4], "ops": h, "size": rng.choice((1, 2, 3)), "seed": rng.randrange(10**9)})
    for i in range(ctx.n(4, 24)):
        for fmt in FORMATS:
            for how in ("cuts", "faults", "sinks", "disk") + (("damage",) if fmt.endswith("gz") else ()):
                out.append({"id": "{}-{}-{:03d}".format(how, fmt, i), "how": how, "fmt": fmt, "size": (1, 2, 2, 6)[i % 4], "seed": rng.randrange(10**9), "n": ctx.n(25, 250)})
    for i in range(ctx.n(1, 4)):
        for fmt in FORMATS:
            for how in ("cuts", "faults", "sinks", "disk"):
                out.append({"id": "large-{}-{}-{:03d}".format(how, fmt, i), "how": how, "fmt": fmt, "size": 60, "seed": rng.randrange(10**9), "n": 6})
    return out


class Broken(OSError):
    pass


def source(base):
    class Source(base):
        """Gives pieces of a given size; fails at a given call."""
        def arm(self, name, step, fault):
            self.name, self.step, self.fault, self.calls, self.hit, self.sent = name, step, fault, 0, False, 0
            return self

        def read(self, n=-1):
            self.calls += 1
            if self.calls == self.fault:
                self.hit = True
                raise Broken("the source failed")
            data = super().read(n if not self.step else self.step if n is None or n < 0 else min(n, self.step))
            self.sent += len(data.encode("utf-8")) if isinstance(data, str) else len(data)
            return data
    return Source


def sink(base):
    class Sink(base):
        def arm(self, fault):
            self.fault, self.calls, self.hit = fault, 0, False
            return self

        def write(self, data):
            self.calls += 1
            if self.fault and self.calls >= self.fault:
                self.hit = True
                raise Broken("the sink failed")
            return super().write(data)
    return Sink


TextIn, BytesIn, TextOut, BytesOut = source(io.StringIO), source(io.BytesIO), sink(io.StringIO), sink(io.BytesIO)


class Bench:
    def __init__(self, case, rng, d):
        import drv.p04 as p04
        from opyenxes.data_in.XUniversalParser import XUniversalParser
        self.p04, self.fmt, self.rng, self.d, self.evs = p04, case["fmt"], rng, d, []
        recipe = gen.log(rng, traces=3, events=3, attrs=2, depth=1)
        while case["size"] > 3 and len(recipe["tr"]) < case["size"]:
            recipe["tr"] = recipe["tr"] + gen.log(rng, traces=5, events=9, attrs=4, depth=1)["tr"]
        if not recipe["tr"]:
            recipe = gen.log(rng, traces=2, events=2)
        self.log = snap.build_log(recipe)
        self.was = snap.digest(snap.snap_log(self.log))
        self.reader, self.uni, self.writer = p04.readers()[self.fmt], XUniversalParser(), p04.writers()[self.fmt]
        self.gz = self.fmt.endswith("gz")
        self.path = os.path.join(d, "whole" + SUFFIX[self.fmt])
        p04.write(self.writer, self.log, self.path)
        with open(self.path, "rb") as f:
            self.data = f.read()
        plain = gzip.decompress(self.data) if self.gz else self.data
        self.canon = p04.canon(plain)
        self.plain = plain
        self.end = len(self.data) if self.gz else len(plain.rstrip())
        self.want = self.parse_path(self.path, self.reader)[1]

    def parse(self, f, reader):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                logs = reader.parse(f)
                return "log", snap.digest([snap.snap_log(x) for x in logs])
            except Exception:
                return "error", ""

    def parse_path(self, path, reader):
        f = open(path, "r", encoding="utf-8") if self.rng.random() < .5 else open(path, "rb")
        try:
            return self.parse(f, reader)
        finally:
            f.close()

    def note(self, how, at, failed, sound, got):
        self.evs.append({"op": "read", "how": how, "at": at, "end": self.end, "failed": failed, "sound": sound, "out": got[0], "same": got[1] == self.want})

    def cut(self, n, reader=None, path=None):
        """Reads a file of the first n bytes."""
        reader = reader or self.rng.choice((self.reader, self.reader, self.uni))
        path = os.path.join(self.d, "cut" + SUFFIX[self.fmt])
        with open(path, "wb") as f:
            f.write(self.data[:n])
        self.note("cut", n, False, True, self.parse_path(path, reader) if self.gz or self.rng.random() < .5 else self.parse(BytesIn(self.data[:n]).arm(path, self.rng.choice((0, 1, 7, 4096)), 0), reader))

    def damage(self, i, x):
        data = bytearray(self.data)
        data[i] ^= x
        path = os.path.join(self.d, "bad" + SUFFIX[self.fmt])
        with open(path, "wb") as f:
            f.write(data)
        try:
            sound = gzip.decompress(bytes(data)) == self.plain
        except Exception:
            sound = False
        self.note("damage", len(self.data), False, sound, self.parse_path(path, self.rng.choice((self.reader, self.uni))))

    def fault(self, n, step):
        """Reads a source that fails at the n-th call; of plain formats."""
        reader = self.rng.choice((self.reader, self.reader, self.uni))
        if self.rng.random() < .5:
            s = BytesIn(self.data).arm("x" + SUFFIX[self.fmt], step, n)
        else:
            s = TextIn(self.data.decode("utf-8")).arm("x" + SUFFIX[self.fmt], step, n)
        got = self.parse(s, reader)
        self.note("fault", s.sent, s.hit, True, got)
        return s.hit

    def whole(self):
        self.note("whole", len(self.data), False, True, self.parse_path(self.path, self.rng.choice((self.reader, self.uni))))

    def written(self, how, failed, out, data):
        same = False
        if out == "done":
            try:
                same = self.p04.canon(data) == self.canon
            except Exception:
                same = False
        self.evs.append({"op": "write", "how": how, "failed": failed, "out": out, "same": same, "log": snap.digest(snap.snap_log(self.log)) == self.was})

    def sink(self, n):
        """Writes to a stream that fails from the n-th call on; of plain formats."""
        byte = self.rng.random() < .5
        s = (BytesOut() if byte else TextOut()).arm(n)
        out = "done"
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                self.writer.serialize(self.log, s, True) if byte else self.writer.serialize(self.log, s)
            except Exception:
                out = "error"
        self.written("sink", s.hit, out, s.getvalue())
        return s.hit

    def disk(self, limit):
        """Writes a file where the disk is full after some bytes; reads back what is left."""
        path = os.path.join(self.d, "disk" + SUFFIX[self.fmt])
        if os.path.exists(path):
            os.remove(path)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = "crash"
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if limit is not None:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    try:
                        self.p04.write(self.writer, self.log, path)
                        out = "done"
                    except Exception:
                        out = "error"
                out = json.dumps([out, snap.digest(snap.snap_log(self.log)) == self.was])
            finally:
                os.write(w, out.encode())
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            out, untouched = json.loads(f.read())
        os.waitpid(pid, 0)
        data = b""
        if os.path.exists(path):
            with open(path, "rb") as f:
                data = f.read()
        if limit is not None and len(self.data) - 16 <= limit < len(self.data) + 16:
            return
        try:
            plain = gzip.decompress(data) if self.gz else data
        except Exception:
            plain = b"" if out == "error" else b"broken"
        self.evs.append({"op": "write", "how": "disk", "failed": limit is not None and limit < len(self.data), "out": out, "log": untouched,
                         "same": out == "done" and self.safe(plain)})
        if out == "error" and data and os.path.exists(path):
            self.evs.append({"op": "read", "how": "left", "at": len(data), "end": self.end, "failed": False, "sound": len(data) >= self.end and self.safe(plain) or len(data) < self.end,
                             "out": self.parse_path(path, self.reader)[0], "same": self.safe(plain)})

    def safe(self, plain):
        try:
            return self.p04.canon(plain) == self.canon
        except Exception:
            return False


def execute(case):
    rng = random.Random(case["seed"])
    d = os.path.join(os.environ["VERIF_SCRATCH"], "streams-" + case["id"])
    os.makedirs(d)
    try:
        b = Bench(case, rng, d)
        run(case, rng, b)
        return b.evs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case, rng, b):
    size, n = len(b.data), case.get("n", 0)
    if case["how"] == "hist":
        for k, c, f in case["ops"]:
            if k == "read":
                if f and not b.gz:
                    b.fault(f, rng.choice((1, 5, max(1, b.end // 3), max(1, b.end // 3), 0)))
                elif c == 4:
                    b.whole()
                elif c == 3:
                    b.cut(b.end)
                else:
                    b.cut(rng.randrange(c * b.end // 3, (c + 1) * b.end // 3))
            elif b.gz or rng.random() < .3:
                b.disk(None if not f else rng.randrange(0, 40) if f == 1 else rng.randrange(0, size - 16))
            else:
                b.sink(f)
    elif case["how"] == "cuts":
        near = [0, 1, 2, 10, b.end - 1, b.end - 2, b.end - 6, b.end - 8, b.end]
        tags = [i + 1 for i in range(size) if b.data[i:i + 1] == b">"] if not b.gz else list(range(size - 12, size))
        for k in near + rng.sample(tags, min(len(tags), n)) + [rng.randrange(size) for _ in range(n)]:
            b.cut(max(0, k))
        b.whole()
    elif case["how"] == "damage":
        head = b.data.index(b"\0", 10) + 1 if b.data[3] & 8 else 10
        for _ in range(n):
            b.damage(rng.choice((rng.randrange(head, size), rng.randrange(size - 8, size))), 1 << rng.randrange(8))
        b.whole()
    elif case["how"] == "faults":
        if b.gz:
            for _ in range(3):
                b.cut(rng.randrange(size))
            return
        for _ in range(n):
            step = rng.choice((0, 1, 3, 64, 1000))
            b.fault(rng.randrange(1, 3 + (size // step if step else 1 + size // 60000)), step)
        b.fault(0, rng.choice((1, 3, 64)))
        b.whole()
    elif case["how"] == "sinks":
        if b.gz:
            return
        k = 1
        while b.sink(k) and k < n:
            k += 1
        k = 100
        while b.sink(k) and k < 10**6:
            k *= 4
        b.sink(0)
    else:
        limits = [0, 1, 100, size // 2, size - 17, size - 40] + [rng.randrange(size) for _ in range(n // 4)]
        for k in limits:
            if 0 <= k:
                b.disk(k)
        b.disk(None)
        b.whole()
