"""Threads working on logs of their own, under schedules of the specification."""
import contextlib
import importlib
import io
import json
import os
import random
import sys
import threading
import time

import drv.p38 as p38
import gen
import snap

TR = "Tr_P39"
FORK = True
CASE_SECONDS = 60
MC = [{"module": "MC_P39", "workers": 4, "cfg": lambda tier: """CONSTANTS
  MaxSteps = %d
  Locked = TRUE
INIT Init
NEXT Next
INVARIANTS OneInstance MadeOnce OwnWork NeverStuck Exclusive
CHECK_DEADLOCK FALSE
""" % (12 if tier == "thorough" else 9)}]
RULE = ("every schedule of two threads up to the bound, of the machine that makes single instances and works on private sums; replayed in the real code by a scheduler that stops threads between "
        "lines, at several grains; jobs: first access to every single instance, reading with own, shared and universal readers, writing with own and shared writers, all questions of P38, "
        "dates, tokens, extension files, new elements; sweeps where one job stops at each of its different lines while another runs; and free runs of four threads with rapid switching")
ASSUMPTIONS = ["every thread has logs of its own, or only reads a shared one; readers and writers may be shared", "switches are between lines (and bytecodes in free runs)"]
SINGLES = {"XExtensionManager": "extension", "XConceptExtension": "extension.std", "XCostExtension": "extension.std", "XIdentityExtension": "extension.std",
           "XLifecycleExtension": "extension.std", "XMicroExtension": "extension.std", "XOrganizationalExtension": "extension.std", "XSemanticExtension": "extension.std",
           "XTimeExtension": "extension.std", "XFactoryRegistry": "factory", "XParserRegistry": "data_in", "XSerializerRegistry": "data_out", "XGlobalAttributeNameMap": "info",
           "XIDFactory": "id", "XExtensionParser": "extension", "XCostAmount": "extension.std", "XCostDriver": "extension.std", "XCostType": "extension.std"}


def get_class(n):
    m = "XCostExtension" if n in ("XCostAmount", "XCostDriver", "XCostType") else n
    return getattr(importlib.import_module("opyenxes.{}.{}".format(SINGLES[n], m)), n)


def setup():
    for n in SINGLES:
        get_class(n)
    import opyenxes.data_in.XUniversalParser
    import opyenxes.data_out.XMxmlSerializer
    import opyenxes.data_out.XesXmlSerializer
    import opyenxes.extension.std.XExtendedEvent
    import opyenxes.info.XLogInfo
    import drv.p31


def cases(ctx):
    rng = ctx.rng("p39")
    out = []
    hist = [json.loads(h) for h in sorted({json.dumps(h) for h in ctx.hist["MC_P39"]})]
    names = sorted(JOBS)
    for i in range(ctx.n(120, 3000)):
        h = rng.choice(hist)
        out.append({"id": "first-{:05d}".format(i), "how": "sched", "hist": h, "grain": rng.choice((1, 1, 2, 3, 5, 9, 30)), "after": rng.choice((0, 3, 8, 12, 20, 40)), "first": True,
                    "jobs": [[["single", n] for n in rng.sample(sorted(SINGLES), 3)] for _ in range(2)] if i % 2 else
                    [[["single", n] for n in o] for o in two(rng)], "seed": rng.randrange(10**9)})
    for i in range(ctx.n(200, 5000)):
        h = rng.choice(hist)
        a = names[i % len(names)]
        b = rng.choice(names) if rng.random() < .2 else a
        k = 3 if a in ("dates", "tokens") else 1
        out.append({"id": "work-{:05d}".format(i), "how": "sched", "hist": h, "grain": (1, 2, 3, 7, 20, 60)[i // len(names) % 6], "after": rng.choice((0, 0, 1, 2, 5, 10, 30, 100, 400)), "cycle": True,
                    "first": rng.random() < .5, "jobs": [[[a, rng.randrange(9)] for _ in range(k)], [[b, rng.randrange(9)] for _ in range(k)]], "seed": rng.randrange(10**9)})
    for i in range(ctx.n(len(names) // 3, 4 * len(names))):
        a = names[i % len(names)]
        out.append({"id": "sweep-{:05d}".format(i), "how": "sweep", "first": False, "jobs": [[[a, rng.randrange(9)]], [[a, rng.randrange(9)]]], "most": ctx.n(50, 400), "seed": rng.randrange(10**9)})
    for i in range(ctx.n(24, 500)):
        out.append({"id": "free-{:05d}".format(i), "how": "free", "hist": [], "grain": 1, "after": 0, "first": rng.random() < .5,
                    "jobs": [[[rng.choice(names), rng.randrange(9)] for _ in range(6)] for _ in range(4)], "seed": rng.randrange(10**9)})
    return out


def two(rng):
    """The same instances for both threads."""
    a = rng.sample(sorted(SINGLES), rng.choice((1, 1, 2, 3)))
    return a, a if rng.random() < .7 else a[::-1]


# ---- jobs: (shared things, number) -> an answer

def recipe_of(n):
    rng = random.Random(n)
    r = gen.log(rng, traces=2, events=3, attrs=3, depth=1)
    for t in r["tr"]:
        for e in t["ev"]:
            for k in ("concept:name", "org:resource"):
                e["m"].update(snap.amap(snap.attr(k, "literal", "s" + snap.enc(rng.choice(("x", "y", "complete", "start"))))))
            if rng.random() < .4:
                e["m"].update(snap.amap(p38.priced(rng, "a")))
    return r


def build(n):
    return snap.build_log(recipe_of(n))


def asks(q):
    return lambda shared, n: p38.QUESTIONS[q](build(n))


def asks_shared(q):
    return lambda shared, n: p38.QUESTIONS[q](shared["log"])


def reads(kind, which):
    def job(shared, n):
        f = io.BytesIO(shared["doc"][kind][n]) if n % 2 else io.StringIO(shared["doc"][kind][n].decode("utf-8"))
        f.name = "x." + kind
        reader = shared[which] if which == "uni" else shared[which][kind]
        return [snap.snap_log(x) for x in reader.parse(f)]
    return job


def writes(kind):
    def job(shared, n):
        out = io.BytesIO()
        shared["writers"][kind].serialize(build(n), out, True)
        return p38.tree(out.getvalue())
    return job


def dates(shared, n):
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    out, rng = [], random.Random(n)
    for _ in range(3):
        v, d = gen.value(rng, "timestamp")
        a = XAttributeTimestamp("time:timestamp", snap.to_datetime(d))
        out.append([str(a), a.get_value_millis()])
    return out


def tokens(shared, n):
    from opyenxes.utils.XTokenHelper import XTokenHelper
    ts = ["a b", "c", "d e f", "k%d" % n]
    s = XTokenHelper.format_token(ts)
    return [s, XTokenHelper.extract_tokens(s)]


def definition(shared, n):
    from opyenxes.extension.XExtensionParser import XExtensionParser
    x = XExtensionParser().parse(shared["ext"][n])
    return [x.get_name(), x.get_prefix(), x.get_uri().geturl(), [sorted(snap.digest([a.get_key(), snap.typ(a)]) for a in s) for s in
            (x.get_log_attributes(), x.get_trace_attributes(), x.get_event_attributes(), x.get_meta_attributes())]]


JOBS = {"ask " + q: asks(q) for q in p38.QUESTIONS if q not in ("names",)}
JOBS.update({"shared " + q: asks_shared(q) for q in p38.QUESTIONS if q not in ("names",)})
JOBS.update({"dates": dates, "tokens": tokens, "definition": definition})
for k_ in ("xes", "mxml"):
    JOBS["write " + k_] = writes(k_)
    for w_ in ("readers", "uni", "own"):
        JOBS["read {} {}".format(k_, w_)] = reads(k_, w_)


class Own(dict):
    def __missing__(self, kind):
        if kind == "xes":
            from opyenxes.data_in.XesXmlParser import XesXmlParser
            return XesXmlParser()
        from opyenxes.data_in.XMxmlParser import XMxmlParser
        return XMxmlParser()


def prepare(case, d):
    """Documents and definition files, made before anything of the library runs in this process."""
    shared = {"doc": {"xes": [], "mxml": []}, "ext": []}
    rng = random.Random(case["seed"])
    for n in range(9):
        body = "".join('<trace><string key="concept:name" value="t%d"/>%s</trace>' % (i, "".join(
            '<event><string key="concept:name" value="e%d-%d"/><date key="time:timestamp" value="20%02d-03-0%dT10:0%d:00.00%d+01:00"/><int key="n" value="%d"><string key="in" value="%d"/></int>'
            '<list key="l"><values><string key="v" value="%d"/></values></list></event>' % (n, j, n + 10, 1 + j, i, n, n * j, n, i) for j in range(3))) for i in range(2))
        shared["doc"]["xes"].append(('<?xml version="1.0" encoding="UTF-8"?><log xes.version="1.0"><extension name="Concept" prefix="concept" uri="http://www.xes-standard.org/concept.xesext"/>'
                                     '<global scope="event"><string key="concept:name" value="g%d"/></global><classifier name="c%d" keys="concept:name"/>%s</log>' % (n, n, body)).encode())
        body = "".join('<ProcessInstance id="i%d"><Data><Attribute name="a">%d</Attribute></Data>%s</ProcessInstance>' % (i, n, "".join(
            '<AuditTrailEntry><WorkflowModelElement>e%d-%d</WorkflowModelElement><EventType>%s</EventType><Timestamp>20%02d-03-0%dT10:0%d:00.00%d+01:00</Timestamp><Originator>o%d</Originator>'
            '</AuditTrailEntry>' % (n, j, rng.choice(("start", "complete")), n + 10, 1 + j, i, n, j) for j in range(3))) for i in range(2))
        shared["doc"]["mxml"].append(('<?xml version="1.0" encoding="UTF-8"?><WorkflowLog><Source program="s%d"/><Process id="p%d">%s</Process></WorkflowLog>' % (n, n, body)).encode())
        path = os.path.join(d, "e%d.xesext" % n)
        with open(path, "w") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?><xesextension name="E%d" prefix="e%d" uri="http://example.org/e%d.xesext"><log><string key="a%d"/></log><event><int key="b%d"/>'
                    '<date key="c"/></event><meta><float key="d%d"/></meta></xesextension>' % (n, n, n, n, n, n))
        shared["ext"].append(path)
    return shared


def things(shared):
    """The readers, writers and log that the threads share."""
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    shared.update({"readers": {"xes": XesXmlParser(), "mxml": XMxmlParser()}, "own": Own(), "uni": XUniversalParser(), "writers": {"xes": XesXmlSerializer(), "mxml": XMxmlSerializer()}})
    return shared


def perform(shared, job, n):
    try:
        return snap.digest(p38.re.sub("at 0x[0-9a-f]+", "", json.dumps(JOBS[job](shared, n), sort_keys=True)))
    except Exception as error:
        return "error " + type(error).__name__


# ---- the scheduler

class Scheduler:
    """Lets the threads run in turns of some lines each, as a schedule says; one that is stuck loses its turn; after the schedule all run."""
    def __init__(self, turns, n):
        self.turns, self.n = turns, n           # [(thread, lines)]
        self.lock, self.at, self.left, self.alive, self.progress = threading.Condition(), 0, turns[0][1] if turns else 0, set(range(n)), 0
        self.stuck = set()      # waiting for something another thread holds; until it moves again

    def ahead(self):
        self.at += 1
        while self.at < len(self.turns) and self.turns[self.at][0] not in self.alive - self.stuck:
            self.at += 1
        self.left = self.turns[self.at][1] if self.at < len(self.turns) else 0
        self.lock.notify_all()

    def point(self, t):
        if self.at >= len(self.turns):
            return
        with self.lock:
            self.progress += 1
            self.stuck.discard(t)
            if self.at < len(self.turns) and self.turns[self.at][0] == t:
                self.left -= 1
                if self.left <= 0:
                    self.ahead()
            while self.at < len(self.turns) and self.turns[self.at][0] != t:
                seen = self.progress
                if not self.lock.wait(.03) and self.progress == seen and self.at < len(self.turns):
                    self.stuck.add(self.turns[self.at][0])
                    self.ahead()

    def finished(self, t):
        with self.lock:
            self.alive.discard(t)
            if self.at < len(self.turns) and self.turns[self.at][0] == t:
                self.ahead()
            self.lock.notify_all()

    def tracer(self, t):
        def trace(frame, event, arg):
            if "opyenxes" not in frame.f_code.co_filename:
                return None
            self.point(t)
            return trace
        return trace


class Sweep:
    """One job stops before the k-th of its different lines; the other runs all through; then the first goes on."""
    def __init__(self, shared, first, second, k):
        self.shared, self.first, self.second, self.k, self.lines, self.a, self.b, self.other = shared, first, second, k, set(), None, None, None

    def trace(self, frame, event, arg):
        if "opyenxes" not in frame.f_code.co_filename:
            return None
        here = (frame.f_code.co_filename, frame.f_lineno)
        if here not in self.lines:
            self.lines.add(here)
            if len(self.lines) == self.k + 1:
                self.other = threading.Thread(target=self.second_run, daemon=True)
                self.other.start()
                self.other.join(.3)      # stuck while the first holds what it needs
        return self.trace

    def first_run(self):
        sys.settrace(self.trace)
        try:
            self.a = perform(self.shared, *self.first)
        finally:
            sys.settrace(None)

    def second_run(self):
        self.b = perform(self.shared, *self.second)

    def run(self):
        t = threading.Thread(target=self.first_run, daemon=True)
        t.start()
        t.join(40)
        if self.other:
            self.other.join(40)
        else:
            self.second_run()
        return len(self.lines)


def execute(case):
    import shutil
    d = os.path.join(os.environ["VERIF_SCRATCH"], "threads-" + case["id"])
    os.makedirs(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return run(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case, d):
    stuck = os.path.join(os.environ["VERIF_SCRATCH"], "threads-stuck")
    if os.path.exists(stuck):        # told already; each costs long
        return []
    shared = things(prepare(case, d))
    single = case["jobs"][0][0][0] == "single"
    evs, jobs = [], [[j for j in js] for js in case["jobs"]]
    every = sorted({tuple(j) for js in jobs for j in js})
    if not single and any(j.startswith("shared") for j, _ in every):
        shared["log"] = build(case["seed"] % 9)

    def name(j):
        return "{} {}".format(*j)
    if not case["first"] and not single:
        for j in every:
            evs.append({"op": "alone", "job": name(j), "a": perform(shared, *j)})
    if case["how"] == "sweep":
        seen, rng = set(), random.Random(case["seed"])
        (first,), (second,) = jobs
        total = Sweep(shared, first, second, 10**9).run()
        picks = range(total) if total <= case["most"] else sorted(rng.sample(range(total), case["most"]))
        for k in picks:
            s = Sweep(shared, first, second, k)
            s.run()
            for j, a in ((first, s.a), (second, s.b)):
                if (name(j), a) not in seen:
                    seen.add((name(j), a))
                    evs.append({"op": "done", "job": name(j), "a": a})
        return evs
    turns = []
    for t in case["hist"]:
        turns.append((t - 1, case["grain"] if turns else case["grain"] + case["after"]))
    if case.get("cycle"):
        rest = [(t - 1, case["grain"]) for t in case["hist"]]
        while len(turns) < 3000:
            turns += rest
    results, ids = [[] for _ in jobs], [[] for _ in jobs]
    sched = Scheduler(turns, len(jobs)) if case["how"] == "sched" else None

    def work(t):
        from opyenxes.factory.XFactory import XFactory
        try:
            if sched:
                sys.settrace(sched.tracer(t))
            try:
                for j in jobs[t]:
                    results[t].append(get_class(j[1])() if single else perform(shared, *j))
                    ids[t].append(str(XFactory.create_event().get_id()))
            finally:
                sys.settrace(None)
        finally:
            if sched:
                sched.finished(t)
    was = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if case["how"] == "free" else was)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(jobs))]
    for t in ts:
        t.start()
    end = time.time() + 40
    for t in ts:
        t.join(max(0.1, end - time.time()))
    sys.setswitchinterval(was)
    evs.append({"op": "end", "all": not any(t.is_alive() for t in ts)})
    if any(t.is_alive() for t in ts):
        open(stuck, "w").close()
        return evs
    if single:
        for n in sorted({j[1] for js in jobs for j in js}):
            seen = [r for t in range(len(jobs)) for j, r in zip(jobs[t], results[t]) if j[1] == n] + [get_class(n)(), get_class(n)()]
            evs.append({"op": "single", "cls": n, "ids": [min(i for i, y in enumerate(seen) if y is x) for x in seen]})
        evs.append({"op": "end", "all": all(len(r) == len(j) for r, j in zip(results, jobs))})
    else:
        for j in every:
            evs.append({"op": "alone", "job": name(j), "a": perform(shared, *j)})
        for t in range(len(jobs)):
            for j, r in zip(jobs[t], results[t]):
                evs.append({"op": "done", "job": name(j), "a": r})
        evs.append({"op": "end", "all": all(len(r) == len(j) for r, j in zip(results, jobs))})
    evs.append({"op": "fresh", "ids": [x for r in ids for x in r]})
    return evs
