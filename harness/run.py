"""One check: explore the machine with TLC, drive the real code, validate its traces with TLC.

usage: run.py PID [--replay FILE] [--keep]
exit 0: the property held on everything explored; 1: VIOLATION; 2: the machinery failed.
"""
import heapq
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
import vlib  # noqa: E402

REPO_SRC = os.environ.get("OPYENXES_SRC", "/repo/src")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery, not the code under test, failed."""


def tlc(work, module, cfg, workers, env=None, timeout=840, heap="3g", extra=()):
    """Run TLC in a directory of its own; return its output."""
    d = os.path.join(work, module + ".d")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SPEC, d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-XX:TieredStopAtLevel=4", "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE", "-config", module + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    path = os.path.join(d, "out.txt")
    with open(path, "wb") as f:
        try:
            subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC ran out of time on " + module)
    with open(path, encoding="utf-8", errors="replace") as f:
        return sampled(f)


HISTORIES = 250000   # how many emitted histories are kept; beyond it, the ones with the smallest checksums


def sampled(lines):
    """The lines of a TLC run, with the histories it emitted cut to a bounded sample of them."""
    rest, kept, total = [], [], 0
    for line in lines:
        if not line.startswith('"HIST '):
            rest.append(line)
            continue
        total += 1
        c = zlib.crc32(line.encode())
        if len(kept) < HISTORIES:
            heapq.heappush(kept, (-c, line))
        elif -c > kept[0][0]:
            heapq.heapreplace(kept, (-c, line))
    return "".join(rest + [line for _, line in kept] + ["histories emitted: {}\n".format(total)])


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def printed(out, tag):
    """The JSON values printed with PrintT(tag \\o ToJson(..))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " ") and line.endswith('"'):
            text = line[len(tag) + 2:-1]
            res.append(json.loads(json.loads('"' + text + '"')))
    return res


def model_check(work, mc, tier):
    """Explore one machine; its properties are invariants and action properties."""
    cfg = mc["cfg"](tier) if callable(mc["cfg"]) else mc["cfg"]
    out = tlc(work, mc["module"], cfg, mc.get("workers", 1))
    if "Model checking completed. No error has been found" not in out:
        raise Broken("model checking of {} failed:\n{}".format(mc["module"], out[-3000:]))
    gen, dist = counts(out)
    return {"module": mc["module"], "generated": gen, "states": dist,
            "hist": printed(out, "HIST"), "emitted": int(re.findall(r"histories emitted: (\d+)", out)[-1])}


def drive(work, pid, cases, variants, tag="d"):
    """Run the cases in the real code, in parallel, and return their records by id."""
    jobs, by = [], {}
    for case in cases:
        by.setdefault(case.get("var", ""), []).append(case)
    total = sum(map(len, by.values()))
    for var, part in sorted(by.items()):
        n = max(1, min(len(part), round(8 * len(part) / max(1, total))))
        for i in range(n):
            jobs.append((var, part[i::n], "{}{}_{}".format(tag, len(jobs), var)))

    def one(job):
        var, part, name = job
        d = os.path.join(work, name)
        os.makedirs(os.path.join(d, "home"))
        src, out = os.path.join(d, "cases.jsonl"), os.path.join(d, "out.ndjson")
        with open(src, "w") as f:
            for case in part:
                f.write(json.dumps(case) + "\n")
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.path.join(d, "home"),
               "PYTHONPATH": REPO_SRC, "PYTHONPYCACHEPREFIX": os.path.join(work, "pyc"),
               "PYTHONHASHSEED": str(len(name) % 7), "LC_ALL": "C.UTF-8",
               "TMPDIR": d, "VERIF_SCRATCH": d, "no_proxy": "*", "PYTHONWARNINGS": "ignore"}
        env.update(variants.get(var, {}))
        try:
            p = subprocess.run([PY, os.path.join(HERE, "drive.py"), pid, src, out], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            err = p.stdout.decode("utf-8", "replace")[-1500:]
        except subprocess.TimeoutExpired:
            err = "driver ran out of time"
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    if line.endswith("\n"):
                        recs.append(json.loads(line))
        return part, recs, err

    res = {}
    with ThreadPoolExecutor(8) as ex:
        for part, recs, err in ex.map(one, jobs):
            for r in recs:
                res[r["id"]] = r
            if any(r["ev"][-1:] == [{"op": "crash", "err": "timeout"}] for r in recs):
                continue                                 # the driver may have given up on the rest
            for case in part[len(recs):len(recs) + 1]:   # the case that ended the driver
                res[case["id"]] = {"id": case["id"], "ev": [{"op": "crash", "err": "driver ended: " + err[-600:]}]}
    return res


TR_CFG = """CONSTANTS
  CInit <- TInit
  CStep <- TStep
INIT KitInit
NEXT KitNext
CHECK_DEADLOCK FALSE
"""


def readable(x):
    """A record without the values TLC's JSON reader refuses: such an observation becomes a text no step expects."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [readable(v) for v in x]
    if x is None or isinstance(x, float) or isinstance(x, int) and not -2**31 < x < 2**31:
        return "unreadable: {!r}".format(x)
    return x


def validate(work, module, recs, tag="t", chunks=1):
    """Have TLC take every recorded event; return (verdicts, states, transitions)."""
    todo = sorted(recs, key=lambda r: r["id"])
    verdicts, states, trans = [], 0, 0
    budget = [24]       # how often a set of traces TLC cannot read is cut in two

    def one(args):
        i, part = args
        path = os.path.join(work, "{}_{}_{}.ndjson".format(tag, module, i))
        found, st, tr = [], 0, 0
        while part:
            with open(path, "w") as f:
                for r in part:
                    f.write(json.dumps(readable(r)) + "\n")
            sub = os.path.join(work, "{}{}".format(tag, i))
            os.makedirs(sub, exist_ok=True)
            out = tlc(sub, module, TR_CFG, max(1, 8 // chunks), env={"TRACE": path}, heap="4g")
            bad = printed(out, "VERDICT")
            found += bad
            if "Model checking completed. No error has been found" in out:
                gen, dist = counts(out)
                st, tr = st + dist, tr + gen
                bads = {b["id"] for b in bad}
                want = sum(len(r["ev"]) + 1 for r in part if r["id"] not in bads)
                want += sum(b["at"] + 1 for b in bad)
                if dist != want:
                    raise Broken("{}: TLC reached {} states, the traces have {}".format(module, dist, want))
                break
            if "Parsing or semantic analysis failed" in out or "ConfigFileException" in out:
                raise Broken("{} does not parse:\n{}".format(module, out[-3000:]))
            # An observation the machine cannot even read: find the case.
            m = re.search(r"/\\ c = (\d+)\n", out[out.rfind("The behavior up to this point is"):]) \
                or re.search(r"^c = (\d+)$", out, re.M)
            if m:
                which = int(m.group(1)) - 1
            elif len(part) == 1:
                which = 0
            else:
                k = len(part) // 2
                budget[0] -= 1
                if budget[0] < 0:
                    if "OutOfMemory" in out or not re.search(r"Error: ", out):
                        raise Broken("{} cannot be evaluated:\n{}".format(module, out[-3000:]))
                    found.append({"id": part[0]["id"], "at": 0, "bad": ["uninterpretable"], "note": "this trace or one near it: " + out[-1200:]})
                    break
                a, b = one(("{}a".format(i), part[:k])), one(("{}b".format(i), part[k:]))
                return found + a[0] + b[0], a[1] + b[1], a[2] + b[2]
            err = re.search(r"Error: (.*?)(?=The behavior up|Error: The behavior|\Z)", out, re.S)
            found.append({"id": part[which]["id"], "at": 0, "bad": ["uninterpretable"],
                          "note": (err.group(1) if err else out)[:1500]})
            if len({x["id"] for x in found if "uninterpretable" in x["bad"]}) >= 3:
                break
            part = part[:which] + part[which + 1:]
        return found, st, tr

    parts = [todo[i::chunks] for i in range(chunks)]
    with ThreadPoolExecutor(chunks) as ex:
        for v, s, t in ex.map(one, list(enumerate(p for p in parts if p))):
            verdicts += v
            states += s
            trans += t
    seen, uniq = set(), []
    for v in verdicts:
        if v["id"] not in seen:
            seen.add(v["id"])
            uniq.append(v)
    return uniq, states, trans


def known_findings(pid):
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    res[m.group(2)] = m.group(3).strip()
    return res


def main():
    pid = sys.argv[1]
    seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_{}_".format(pid))
    try:
        return check(pid, seed, tier, replay, work, t0)
    except Broken as e:
        print("CHECK ERROR {}: {}".format(pid, e))
        return 2
    finally:
        if "--keep" in sys.argv:
            print("kept", work)
        else:
            subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
            shutil.rmtree(work, ignore_errors=True)


def check(pid, seed, tier, replay, work, t0):
    mod = importlib.import_module("drv." + pid.lower())
    variants = getattr(mod, "VARIANTS", {})
    timing = {}

    # 1. the machine itself
    models = []
    if not replay:
        with ThreadPoolExecutor(4) as ex:
            models = list(ex.map(lambda mc: model_check(work, mc, tier), getattr(mod, "MC", [])))
    hist = {m["module"]: m["hist"] for m in models}
    timing["mc"] = round(time.time() - t0, 1)

    # 2. the code
    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = mod.cases(vlib.Ctx(seed, tier, hist))
    ids = [c["id"] for c in cases]
    if len(set(ids)) != len(ids):
        raise Broken("duplicate case ids")
    recs = drive(work, pid, cases, variants)
    timing["drive"] = round(time.time() - t0, 1)

    # 3. the machine judges the code
    verdicts, states, trans = validate(work, mod.TR, list(recs.values()), chunks=getattr(mod, "CHUNKS", 1))
    timing["validate"] = round(time.time() - t0, 1)

    by_id = {c["id"]: c for c in cases}
    known, shown, alarms = known_findings(pid), [], []
    for v in verdicts:
        (shown if v["id"] in known else alarms).append(v)
    for v in sorted(shown, key=lambda v: v["id"]):
        print("KNOWN-FINDING: property={} case={} {}".format(pid, v["id"], known[v["id"]]))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    if not replay:
        for old in os.listdir(rdir):
            if old.startswith(pid + "_"):
                os.remove(os.path.join(rdir, old))
    classes = {}
    for v in sorted(alarms, key=lambda v: (len(json.dumps(by_id[v["id"]])), v["id"])):
        classes.setdefault(tuple(sorted(v["bad"])), []).append(v)
    for n, (bad, vs) in enumerate(sorted(classes.items())):
        v = vs[0]
        path = os.path.join(rdir, "{}_{}.json".format(pid, n))
        if not replay:
            with open(path, "w") as f:
                json.dump({"property": pid, "clauses": list(bad), "at_event": v["at"], "note": v.get("note", ""),
                           "others": len(vs) - 1, "case": by_id[v["id"]], "trace": recs[v["id"]],
                           "replay": "bin/check {} --replay {}".format(pid, path)}, f, indent=1)
        else:
            path = replay
        print("broken clause(s) {} in case {} at event {} ({} case(s))".format(
            ",".join(bad), v["id"], v["at"], len(vs)))
        if n < 10:
            print("VIOLATION property={} replay={}".format(pid, path))
    if not replay and not alarms and len(recs) != len(cases):
        raise Broken("{} cases, {} records".format(len(cases), len(recs)))

    if not replay:
        sample = [recs[i] for i in ids[:: max(1, len(ids) // 3)][:3] if i in recs]
        sample = [s if len(json.dumps(s)) < 4000 else {"id": s["id"], "ev": str(s["ev"])[:3000]} for s in sample]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": sum(m["states"] for m in models) + states,
                  "transitions": sum(m["generated"] for m in models) + trans,
                  "traces_validated_against_impl": len(recs),
                  "samples": sample,
                  "events_judged": sum(len(r["ev"]) for r in recs.values()),
                  "machine_exploration": [{k: m[k] for k in ("module", "states", "generated")} |
                                          {"histories_emitted": m["emitted"], "histories_kept": len(m["hist"])} for m in models],
                  "trace_validation": {"module": mod.TR, "states": states, "transitions": trans},
                  "rule": getattr(mod, "RULE", ""),
                  "timing_s": timing},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(alarms)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("{} {}: {} traces, {} events, {} model states, {} alarm(s), {:.1f} s {}".format(
        pid, tier, len(recs), sum(len(r["ev"]) for r in recs.values()),
        sum(m["states"] for m in models) + states, len(alarms), time.time() - t0, timing))
    return 1 if alarms else 0


if __name__ == "__main__":
    sys.exit(main())
