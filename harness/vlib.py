"""Encoding shared by generators and drivers (standard library only)."""
import random

KEEP = {chr(i) for i in range(0x20, 0x7f)} - set('%"\\')


def enc(text):
    """Text as printable ASCII; a bijection, so that equal encodings are equal texts."""
    if text is None:
        return "N"
    return "".join(ch if ch in KEEP else "%{:x};".format(ord(ch)) for ch in text)


def opt(text):
    """An optional text: N for None, else s and the encoded text."""
    if text is None:
        return "N"
    if not isinstance(text, str):
        return "?" + enc(repr(type(text).__name__))
    return "s" + enc(text)


def dec(text):
    out, i = [], 0
    while i < len(text):
        if text[i] == "%":
            j = text.index(";", i)
            out.append(chr(int(text[i + 1:j], 16)))
            i = j + 1
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


class Ctx:
    """What a generator gets: seed, tier, and the histories TLC emitted."""

    def __init__(self, seed, tier, hist):
        self.seed, self.tier, self.hist = seed, tier, hist
        self.thorough = tier == "thorough"

    def rng(self, name):
        return random.Random("{}/{}".format(self.seed, name))

    def n(self, quick, thorough):
        return thorough if self.thorough else min(3 * quick, max(quick, thorough))
