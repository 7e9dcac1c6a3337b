import re

TR = "Tr_P29"
MC = [{"module": "MC_P29", "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
  MaxNow = 3
  Timers = {1, 2}
INIT Init
NEXT Next
VIEW view
INVARIANTS Meaning AddsUp
CHECK_DEADLOCK FALSE
""" % (8 if tier == "thorough" else 6)}]
RULE = ("every transition of the two-timer machine as a history, in real time (ticks are sleeps, bounds measured around "
        "each call) and under a stand-in clock with steps from milliseconds to days; durations around every unit threshold")
ASSUMPTIONS = ["the clock does not step backwards", "real-time bounds have a slack of 3 ms"]


def cases(ctx):
    rng = ctx.rng("p29")
    out = []
    hist = ctx.hist["MC_P29"]
    long = sorted((h for h in hist if any(x[0] == "tick" for x in h)), key=lambda h: (-len(h), str(h)))
    for i, h in enumerate(long):
        out.append({"id": "fake-{:05d}".format(i), "clock": "fake", "ops": h, "step": rng.choice((1, 7, 999, 1001, 60001, 3600001, 86400001))})
    for i, h in enumerate(rng.sample(long, min(len(long), ctx.n(160, 800)))):
        out.append({"id": "real-{:05d}".format(i), "clock": "real", "ops": h, "step": 8})
    ds = []
    for base in (0, 1, 999, 1000, 1001, 1999, 2000, 59000, 59999, 60000, 60001, 61000, 119999, 120000, 3599999, 3600000, 3600001,
                 3660000, 3661001, 7200000, 7261001, 86399999, 86400000, 86400001, 86460000, 90000000, 90061001, 172800000,
                 172800001, 259200000, 8640000000, 8640000001, 31536000000, 99999999999):
        for f in (0, 500000, 15625):
            ds.append([base // 86400000, base % 86400000, f])
    for _ in range(ctx.n(2000, 50000)):
        m = rng.choice((rng.randrange(86400000), rng.randrange(4000000), rng.randrange(70000),
                        rng.randrange(24) * 3600000 + rng.randrange(60) * 60000 + rng.randrange(60) * 1000 + rng.randrange(1000)))
        ds.append([rng.choice((0, 0, 1, 2, rng.randrange(3000))), m, rng.choice((0, 0, 15625 * rng.randrange(64)))])
    for i in range(0, len(ds), 100):
        out.append({"id": "format-{:04d}".format(i // 100), "ds": ds[i:i + 100]})
    return out


def units(text):
    res = []
    for num, unit in re.findall(r"([-+0-9.eE]+)\s+(days|hours|minutes|seconds|milliseconds)", text):
        v = float(num)
        w = int(v // 1)
        res.append([unit, w, round((v - w) * 1000000)])
    return res


class Fake:
    now = 0


def setup():
    """A stand-in clock for time.*, switched on by Fake.on."""
    import time
    real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns")}
    Fake.real = real
    Fake.on = False

    def make(n):
        def f():
            if not Fake.on:
                return real[n]()
            return 1700000000 * 10**9 + Fake.now * 10**6 if n.endswith("_ns") else 1700000000 + Fake.now / 1000
        return f
    for n in real:
        setattr(time, n, make(n))
    from opyenxes.utils.XTimer import XTimer
    Fake.on = True
    t = XTimer()
    Fake.now += 1000000
    Fake.follows = False
    try:
        Fake.follows = abs(t.get_duration()) > 500000
    except Exception:
        pass
    Fake.on = False


def execute(case):
    from opyenxes.utils.XTimer import XTimer
    ev = []
    if "ds" in case:
        for d, m, f in case["ds"]:
            ms = d * 86400000 + m
            err, u = "", []
            try:
                u = units(XTimer.format_duration(ms + f / 1000000 if f else ms))
            except Exception as e:
                err = type(e).__name__
            ev.append({"op": "format", "d": d, "m": m, "f": f, "units": u, "err": err})
        return ev
    fake = case["clock"] == "fake"
    if fake and not Fake.follows:
        return ev
    Fake.on, Fake.now = fake, 0
    base = Fake.real["monotonic"]()

    def now():
        return Fake.now if fake else (Fake.real["monotonic"]() - base) * 1000

    def timed(f):
        import math
        a = math.floor(now())
        r = f()
        return r, [a, math.ceil(now())]
    try:
        ts = []
        for i in (1, 2):
            t, n = timed(XTimer)
            ts.append(t)
            ev.append({"op": "new", "t": i, "now": n})
        for op, i in case["ops"] + [["tick", 0]]:
            if op == "tick":
                if fake:
                    Fake.now += case["step"]
                else:
                    import time
                    time.sleep(case["step"] / 1000)
            else:
                _, n = timed(getattr(ts[i - 1], op))
                ev.append({"op": op, "t": i, "now": n})
            for i in (1, 2):
                err, d, u, a = "", 0, [], []
                n = [0, 0]
                try:
                    d, n = timed(ts[i - 1].get_duration)
                    u = units(ts[i - 1].get_duration_string())
                    a = units(XTimer.format_duration(d))
                    d = max(-2000000000, min(2000000000, round(d)))
                except Exception as e:
                    err = type(e).__name__
                ev.append({"op": "ask", "t": i, "now": n, "ms": d, "units": u, "again": a, "err": err})
    finally:
        Fake.on = False
    return ev
