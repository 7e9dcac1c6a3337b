"""Runs cases of one property in the real code and writes what it answered.

usage: drive.py PID CASES.jsonl OUT.ndjson
"""
import importlib
import json
import os
import resource
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def run_case(mod, case):
    """The trace record of one case."""
    signal.alarm(getattr(mod, "CASE_SECONDS", 20))
    try:
        rec = mod.execute(case)
        if isinstance(rec, list):
            rec = {"ev": rec}
    except Timeout:
        rec = {"ev": [{"op": "crash", "err": "timeout"}]}
    except BaseException as e:   # the library failed where the driver expects it not to
        where = traceback.extract_tb(e.__traceback__)[-1]
        rec = {"ev": [{"op": "crash", "err": "{}: {} ({}:{})".format(
            type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.lineno)}]}
    finally:
        signal.alarm(0)
    rec["id"] = case["id"]
    return rec


def in_child(mod, case):
    """Run the case in a process of its own (fresh singletons)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = json.dumps(run_case(mod, case)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return {"id": case["id"], "ev": [{"op": "crash", "err": "process died"}]}


def main():
    pid, cases, out = sys.argv[1:4]
    import logging
    logging.disable(logging.CRITICAL)
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)                     # the library prints
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGALRM, on_alarm)
    mod = importlib.import_module("drv." + pid.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    slow = 0
    with open(cases) as f, open(out, "w") as g:
        for line in f:
            case = json.loads(line)
            if getattr(mod, "FORK", False) or case.get("fork"):
                rec = in_child(mod, case)
            else:
                rec = run_case(mod, case)
            g.write(json.dumps(rec) + "\n")
            g.flush()
            slow += rec["ev"][-1:] == [{"op": "crash", "err": "timeout"}]
            if slow >= 3:                # enough seen
                break


if __name__ == "__main__":
    main()
