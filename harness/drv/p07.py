import calendar

from vlib import enc, dec

TR = "Tr_P07"
CHUNKS = 2
VARIANTS = {"utc": {"TZ": "UTC"}, "scl": {"TZ": "America/Santiago"}, "ist": {"TZ": "Asia/Kolkata"},
            "odd": {"TZ": "XXX-13:45YYY-14:45,M3.2.0,M11.1.0"}}
MC = [{"module": "MC_P07", "workers": 6, "cfg": lambda tier: """CONSTANTS
  From = %d
  To = %d
INIT Init
NEXT Next
INVARIANTS CalendarOk EpochOk TextOk
CHECK_DEADLOCK FALSE
""" % ((1, 9999) if tier == "thorough" else (1999, 2000))}]
RULE = ("texts: every day of chosen years and boundary days of others, boundary times, all fraction lengths, zones over "
        "sign x hours x minutes, and malformed texts made by impossible fields, missing parts and edits of valid texts; "
        "datetimes: boundary and seeded dates, every whole-minute offset, naive values, under four process time zones")
ASSUMPTIONS = ["texts in the layout but with numbers of other lengths or blanks inside are unspecified (only no error)"]


def zone(o):
    return "{}{:02}:{:02}".format("-" if o < 0 else "+", *divmod(abs(o), 60))


def cases(ctx):
    rng = ctx.rng("p07")
    texts = []
    offs = sorted(set(list(range(-1439, 1440, 97)) + [0, 1, -1, 59, -59, 60, -60, 61, -61, 330, -330, 345, -210, 570, 840, 1439, -1439]))
    dates = []
    for y in ([1900, 1999, 2000, 2023, 2024] if not ctx.thorough else range(1890, 2110)):
        for m in range(1, 13):
            for d in range(1, calendar.monthrange(y, m)[1] + 1):
                dates.append((y, m, d))
    for y in list(range(1, 9999, 613)) + [9999, 4, 100, 400, 1582, 1600, 1970, 2100, 2038]:
        for m, d in ((1, 1), (2, 28), (3, 1), (12, 31), (1, 31), (2, 29)):
            if d <= calendar.monthrange(y, m)[1]:
                dates.append((y, m, d))
    times = [(0, 0, 0), (23, 59, 59), (12, 30, 1), (9, 5, 7), (23, 0, 0), (0, 59, 0)]
    fracs = ["", ".0", ".1", ".12", ".123", ".1234", ".12345", ".123456", ".9", ".999", ".999999", ".000001", ".001", ".050", ".5", ".00", ".000", ".0000", ".00000", ".000000", ".100000", ".120000", ".00001", ".999000", ".10"]
    for i, (y, m, d) in enumerate(dates):
        h, mi, s = times[i % len(times)]
        f = fracs[i % len(fracs)]
        z = ["", "Z", zone(offs[i % len(offs)])][(i // 3) % 3]
        texts.append("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}".format(y, m, d, h, mi, s, f, z))
    for f in fracs:
        for t in times:
            for z in ["", "Z"] + [zone(o) for o in offs]:
                texts.append("2017-06-30T{:02}:{:02}:{:02}{}{}".format(*t, f, z))
    for h in range(24):
        for z in ("+{:02}:00", "-{:02}:00", "+{:02}:30", "-{:02}:45"):
            texts.append("2016-02-29T12:34:56.789" + z.format(h))
            texts.append("2016-02-29T12:34:56" + z.format(h))
    texts += ["2017-01-01T00:00:00-00:00", "2017-01-01T00:00:00+00:00", "2017-01-01T00:00:00-00:30", "2017-01-01T00:00:00.25-00:30"]
    # malformed
    bad = ["", "x", "T", "Z", "2017", "2017-01-01", "2017-01-01T", "2017-01-01T10", "2017-01-01T10:00", "2017-01-01 10:00:00",
           "2017-13-01T10:00:00", "2017-00-01T10:00:00", "2017-02-29T10:00:00", "2017-02-30T10:00:00Z", "2017-04-31T10:00:00",
           "2017-01-32T10:00:00", "2017-01-00T10:00:00", "1900-02-29T10:00:00", "2017-01-01T24:00:00", "2017-01-01T10:60:00",
           "2017-01-01T10:00:60", "2017-01-01T10:00:61", "2017-01-01T10:00:00.", "2017-01-01T10:00:00.1234567", "0000-01-01T00:00:00",
           "2017/01/01T10:00:00", "2017-01-01t10:00:00", "2017-01-01T10.00.00", "2017-01-01T10:00:00+24:00", "2017-01-01T10:00:00-24:00",
           "2017-01-01T10:00:00+99:00", "2017-01-01T10:00:00+05:60", "2017-01-01T10:00:00-05:99", "2017-01-01T10:00:00+ab:cd",
           "2017-01-01T10:00:00+05", "2017-01-01T10:00:00+05:", "2017-01-01T10:00:00+:30", "2017-01-01T10:00:00+05:30:15",
           "2017-01-01T10:00:00-", "2017-01-01T10:00:00+", "2017-01-01T10:00:00Z+01:00", "2017-01-01T10:00:00+01:00Z",
           "2017Z-01-01T10:00:00", "Z2017-01-01T10:00:00", "2017-01-01T10:00:00ZZ", "2017-01-01T10:00:00z", "2017-01-01T10:00:00 UTC",
           "20170101T100000", "20170101T100000Z", "01-01-2017T10:00:00", "12017-01-01T10:00:00", "-2017-01-01T10:00:00",
           "2017-01-01T10:00:00++01:00", "2017-01-01T10:00:00--01:00", "2017-01-01T10:00:00,5", "now", "2017-01-01T10:00:00.12a",
           "2017-01-01T10:00:0a", "abcd-ef-ghTij:kl:mn", "2017-01-01T10:00:00.5.5", "2017-01-01TT10:00:00", "1483264800000",
           "+", "-", "-01:00", "+01:00", ":", "2017-01-01T10:00:00+1:2:3:4", "2017-W01-1T10:00:00", "\u00e4", "2017-01-01T10:00:00\u2212" "01:00"]
    bad += ["2017-01-01T10:00:00%s5:30" % c for c in "+-"] + ["2017-1-1T1:1:1", " 2017-01-01T10:00:00", "2017-01-01T10:00:00 "]
    base = ["2017-06-30T12:34:56.789+05:30", "2017-06-30T12:34:56-03:00", "2017-06-30T12:34:56.5Z", "2017-06-30T12:34:56"]
    for b in base:
        for i in range(len(b)):
            bad.append(b[:i] + b[i + 1:])
            for c in "xZ-:+.T9":
                bad.append(b[:i] + c + b[i + 1:])
                bad.append(b[:i] + c + b[i:])
    for _ in range(ctx.n(800, 20000)):
        b = list(rng.choice(base))
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(b))
            b[i] = rng.choice("0123456789-:+.TZx ")
        bad.append("".join(b))
    for _ in range(ctx.n(1500, 30000)):
        y = rng.choice((rng.randrange(1, 10000), rng.randrange(1960, 2050)))
        m = rng.randrange(1, 13)
        texts.append("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}".format(
            y, m, rng.randrange(1, calendar.monthrange(y, m)[1] + 1), rng.randrange(24), rng.randrange(60), rng.randrange(60),
            rng.choice(["", "." + "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 7)))]),
            rng.choice(["", "Z", zone(rng.randrange(-1439, 1440))])))
    # datetimes to write
    dts = []
    for o in range(-1439, 1440, 1 if ctx.thorough else 7):
        dts.append([2012, 2, 29, 1, 2, 3, 4000 * (o % 200), o])
    for o in (0, 330, -210, -1, 1, -59, 59, -61, 345, -570):
        dts.append([2012, 12, 31, 23, 59, 59, 999999, o])
    for i, (y, m, d) in enumerate(dates):
        us = [0, 1, 999, 1000, 1001, 10000, 99999, 100000, 500000, 999000, 999999, 123456, 45000, 7000][i % 14]
        dts.append([y, m, d, *times[i % 6], us, [99999, 0, offs[i % len(offs)]][i % 3]])
    dts = [x for x in dts if not ((x[0] == 1 or x[0] == 9999) and x[7] not in (0, 99999))]
    for _ in range(ctx.n(1500, 30000)):
        y = rng.randrange(2, 9999)
        m = rng.randrange(1, 13)
        dts.append([y, m, rng.randrange(1, calendar.monthrange(y, m)[1] + 1), rng.randrange(24), rng.randrange(60), rng.randrange(60),
                    rng.choice((rng.randrange(1000) * 1000, rng.randrange(1000000))), rng.choice((99999, rng.randrange(-1439, 1440)))])
    items = [["r", enc(t)] for t in dict.fromkeys(texts + bad)] + [["w", d] for d in dts]
    out, names = [], sorted(VARIANTS)
    for i in range(0, len(items), 50):
        out.append({"id": "b-{:05d}".format(i // 50), "var": names[(i // 50) % 4], "items": items[i:i + 50]})
    # a fixed set in every zone
    fixed = [["r", enc(t)] for t in base + bad[:60]] + [["w", d] for d in dts[:40] + [[2017, 3, 26, 2, 30, 0, 0, 99999], [2017, 5, 14, 0, 0, 0, 5000, 99999]]]
    out += [{"id": "zone-" + v, "var": v, "items": fixed} for v in names]
    return out


def fields(dt):
    if dt is None:
        return []
    off = dt.utcoffset()
    o = 99999 if off is None else off.days * 1440 + off.seconds // 60
    return [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond, o]


def execute(case):
    from datetime import datetime, timedelta, timezone
    from opyenxes.utils.XsDateTimeConversion import parse_date_time
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    ev = []
    for kind, arg in case["items"]:
        err, got, text = "", [], ""
        try:
            if kind == "r":
                got = fields(parse_date_time(dec(arg)))
            else:
                dt = datetime(*arg[:7], tzinfo=None if arg[7] == 99999 else timezone(timedelta(minutes=arg[7])))
                text = str(XAttributeTimestamp("time:timestamp", dt))
                got = fields(parse_date_time(text))
        except Exception as e:
            err = type(e).__name__
        ev.append({"op": "read", "text": arg, "got": got, "err": err} if kind == "r" else
                  {"op": "write", "dt": arg, "text": enc(text), "got": got, "err": err})
    return ev
