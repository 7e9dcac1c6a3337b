from vlib import enc, dec

TR = "Tr_P08"
MC = [{"module": "MC_P08", "cfg": lambda tier: """CONSTANTS
  MaxLen = %d
  Alphabet = {"a", "b", " ", "'", ":", "|"}
INIT Init
NEXT Next
INVARIANTS RoundTrip NoEmpty AllLetters
CHECK_DEADLOCK FALSE
""" % (7 if tier == "thorough" else 5)}]
RULE = ("every text up to the bound over letters, blank, colon, quote and a cut mark is extracted from and, cut at the "
        "mark, formatted as key list and extracted again; plus seeded longer texts with non-ASCII letters")
ASSUMPTIONS = ["tabs, line breaks and other white space than the blank are outside the domain"]


def good(k):
    return k and k == k.strip(" ") and "'" not in k


def batches(name, items, size):
    return [{"id": "{}-{:04d}".format(name, i), "items": items[j:j + size]}
            for i, j in enumerate(range(0, len(items), size))]


def cases(ctx):
    texts = sorted({h[0] for h in ctx.hist["MC_P08"]} | {""})
    rng = ctx.rng("p08")
    letters = "abcXYZ019:.-_,;()[]{}\"\\/<>&%!?=+*~^@#$|\u00e4\u00df\u03a9\u0416\u4e2d\U0001f600"
    more, lists = [], []
    for _ in range(ctx.n(1500, 20000)):
        alpha = letters + " " * 12 + "'" * rng.choice((0, 2, 8))
        more.append("".join(rng.choice(alpha) for _ in range(rng.randrange(1, 40))))
    for _ in range(ctx.n(1500, 20000)):
        ks = []
        for _ in range(rng.randrange(0, 7)):
            k = "".join(rng.choice(letters + " " * 10) for _ in range(rng.randrange(1, 15))).strip()
            if good(k):
                ks.append(k)
        lists.append(ks)
    for std in (["concept:name"], ["concept:name", "lifecycle:transition"], ["org:resource", "my key", "time:timestamp"], []):
        lists.append(std)
    out = batches("x", [["x", enc(t)] for t in texts + more], 100)
    ks = [t.split("|") for t in texts if all(good(k) for k in t.split("|"))] + lists
    out += batches("t", [["t", [enc(k) for k in l]] for l in ks], 100)
    return out


def execute(case):
    from opyenxes.utils.XTokenHelper import XTokenHelper
    ev = []
    for kind, arg in case["items"]:
        err, toks = "", []
        try:
            if kind == "x":
                toks = [enc(t) for t in XTokenHelper.extract_tokens(dec(arg))]
            else:
                toks = [enc(t) for t in XTokenHelper.extract_tokens(
                    XTokenHelper.format_token([dec(k) for k in arg]))]
        except Exception as e:
            err = type(e).__name__
        if kind == "x":
            ev.append({"op": "extract", "text": arg, "toks": toks, "err": err})
        else:
            ev.append({"op": "trip", "keys": arg, "toks": toks, "err": err})
    return ev
