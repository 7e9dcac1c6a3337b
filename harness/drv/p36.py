"""The platform and the support folders on it."""
import os
import random
import shutil
import sys
import tempfile

from vlib import enc

TR = "Tr_P36"
CHUNKS = 1
FORK = True
MC = [{"module": "MC_P36", "workers": 2, "cfg": lambda tier: """CONSTANTS
  MaxOps = %d
INIT Init
NEXT Next
VIEW view
INVARIANTS OneKind Closed
PROPERTIES There
CHECK_DEADLOCK FALSE
""" % (6 if tier == "thorough" else 4)}]
RULE = ("every history of asking for the support and cache folders, storing, overwriting and losing them up to the bound on each platform, and seeded longer ones with homes that "
        "are missing, have blanks or other letters or come from the user profile, several runtime objects, and other files around; after each step the whole scratch folder")
ASSUMPTIONS = ["the platform is what sys.platform says when a runtime object is first asked", "other systems than the named ones may or may not count as Unix"]


def cases(ctx):
    rng = ctx.rng("p36")
    out = []
    hist = sorted((h for h in ctx.hist["MC_P36"]), key=str)
    top = max(len(h[1]) for h in hist)
    hist = [h for h in hist if len(h[1]) == top]
    for i, h in enumerate(rng.sample(hist, min(len(hist), ctx.n(500, 4000)))):
        out.append({"id": "hist-{:05d}".format(i), "platform": h[0], "ops": [x[0] for x in h[1]], "seed": rng.randrange(10**9)})
    for i in range(ctx.n(200, 2000)):
        p = rng.choice(("win32", "darwin", "darwin20", "linux", "linux2", "freebsd", "freebsd13", "freebsd13.2-release", "linux-armv7l", "darwin-arm64", "win32-x64", "aix", "winCE", "win16", "Linux", "darwi", "win", "msys", "cygwin", "sunos5", "wasi"))
        ops = [rng.choice(("support", "cache", "write", "delete", "ask", "new", "write", "cache", "support")) for _ in range(rng.randrange(3, 14))]
        out.append({"id": "long-{:04d}".format(i), "platform": p, "ops": ops, "seed": rng.randrange(10**9)})
    return out


def execute(case):
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    rng = random.Random(case["seed"])
    base = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        home = rng.choice(("home", "home", "my home", "h\u00e4/user", "a/b/c"))
        for k in ("USERPROFILE", "HOME"):
            os.environ.pop(k, None)
        if rng.random() < .4:
            os.environ["USERPROFILE"] = os.path.join(base, home)
            os.environ["HOME"] = os.path.join(base, "other")
        else:
            os.environ["HOME"] = os.path.join(base, home)
        first = []
        if rng.random() < .7 or case["platform"] == "win32":
            os.makedirs(os.path.join(base, home))
        for d in ("beside", os.path.join(home, "Documents")) if rng.random() < .5 else ():
            os.makedirs(os.path.join(base, d), exist_ok=True)
        was, sys.platform = sys.platform, case["platform"]
        us, evs = [XRuntimeUtils()], []

        def rel(p):
            return enc(p[len(base) + 1:]) if p.startswith(base + "/") else "?" + enc(p)

        def look(e):
            sys.platform = was
            dirs, files = [], {}
            for top, ds, fs in os.walk(base):
                dirs += [rel(os.path.join(top, d)) for d in ds]
                for f in fs:
                    with open(os.path.join(top, f)) as o:
                        files[rel(os.path.join(top, f))] = o.read()
            sys.platform = case["platform"]
            return dict(e, dirs=sorted(dirs), files=files)
        first = look({})["dirs"]
        sup = cache = None
        for n, op in enumerate(case["ops"]):
            u = rng.choice(us)
            if op == "new":
                us.append(XRuntimeUtils())
            elif op == "support":
                sup = u.get_support_folder()
                evs.append(look({"op": op, "got": rel(sup)}))
            elif op == "cache":
                cache = u.get_extension_cache_folder()
                evs.append(look({"op": op, "got": rel(cache)}))
            elif op == "ask":
                evs.append(look({"op": op, "ask": {"os": enc(u.determine_os()), "windows": u.is_running_windows(), "mac": u.is_running_mac_os_x(), "linux": u.is_running_linux(),
                                                   "unix": u.is_running_unix()}}))
            elif op == "write" and (cache and os.path.isdir(cache) or sup and os.path.isdir(sup)):
                d = cache if cache and os.path.isdir(cache) else sup
                if not d.startswith(base + "/"):
                    continue
                sep = "\\" if case["platform"] == "win32" else "/"
                p = d.rstrip(sep) + sep + rng.choice(("f.xesext", "x", "o.xesext"))
                with open(p, "w") as o:
                    o.write(str(n))
                evs.append(look({"op": op, "p": rel(p), "v": str(n)}))
            elif op == "delete" and sup and sup.startswith(base + "/") and os.path.isdir(sup) and case["platform"] != "win32":
                shutil.rmtree(sup.rstrip("/"))
                evs.append(look({"op": op, "p": rel(sup.rstrip("/"))}))
        sys.platform = was
        return {"os": case["platform"], "home": enc(home), "dirs": first, "ev": evs}
    finally:
        shutil.rmtree(base, ignore_errors=True)
