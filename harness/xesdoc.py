"""XES documents as data: nodes {"tag", "key", ...}, their text, and the start/end events of the reader machine."""
from vlib import enc, dec, opt


def esc(rng, s, q):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == "&":
            out.append(rng.choice(("&amp;", "&#38;", "&#x26;")))
        elif ch == "<":
            out.append(rng.choice(("&lt;", "&#60;")))
        elif ch == ">":
            out.append(rng.choice(("&gt;", ">")))
        elif ch == q:
            out.append({"\"": "&quot;", "'": "&apos;"}[q])
        elif ch in "\n\t\r":
            out.append("&#%d;" % o)
        elif rng.random() < .05:
            out.append(rng.choice(("&#%d;" % o, "&#x%x;" % o)))
        else:
            out.append(ch)
    return "".join(out)


def case_of(rng, tag, style):
    if style == "std":
        return tag
    return rng.choice((tag, tag.upper(), tag.capitalize(), "".join(rng.choice((c, c.upper())) for c in tag)))


def node(tag, kids=(), **xml):
    """xml: the XML attributes in plain text; ev: fields for the machine's start event."""
    return {"tag": tag, "xml": xml.pop("xml", {}), "ev": xml, "kids": list(kids)}


def attribute(tag, key, text=None, den="", kids=()):
    """An attribute element; text None: without a value."""
    xml = {}
    if key is not None:
        xml["key"] = key
    if text is not None:
        xml["value"] = text
    return node(tag, kids, xml=xml, key=opt(key), den=den, text=enc(text) if tag == "date" and text is not None else "")


def log_node(kids, ft=None, other=None):
    ft = ft or {}
    at = dict(ft, **(other or {}))
    return node("log", kids, xml=at, ft={enc(k): opt(v) for k, v in at.items()})


def extension(prefix=None, uri=None, name=None, known=""):
    xml = {k: v for k, v in (("name", name), ("prefix", prefix), ("uri", uri)) if v is not None}
    return node("extension", xml=xml, den=known)


def classifier(name, keys):
    """keys: clean keys; the text is in the documented form."""
    xml = {}
    if name is not None:
        xml["name"] = name
    if keys is not None:
        xml["keys"] = " ".join("'%s'" % k if " " in k else k for k in keys)
    return node("classifier", xml=xml, name=enc(name or ""), keys=[enc(k) for k in keys or []])


def glob(scope, kids, spelled=None):
    return node("global", kids, xml={"scope": spelled or scope}, scope=scope)


def events(n, out):
    out.append(dict({"op": "start", "tag": n["tag"]}, **n["ev"]))
    for k in n["kids"]:
        events(k, out)
    out.append({"op": "end", "tag": n["tag"]})
    return out


FILL = ["", "", "\n", "  ", "\n\t", "<!-- a comment with <string key='no' value='no'/> -->", "<?pi data?>", "text", "&#160;", "<![CDATA[<event/>]]>"]


def text(rng, n, style="odd", depth=0):
    tag = case_of(rng, n["tag"], style)
    items = list(n["xml"].items())
    if style != "std":
        rng.shuffle(items)
    parts = ["<", tag]
    for k, v in items:
        q = rng.choice("\"'")
        parts.append("%s%s=%s%s%s" % (rng.choice((" ", " ", "\n ")), k, q, esc(rng, v, q), q))
    if not n["kids"] and rng.random() < .6:
        parts.append(rng.choice(("/>", " />")))
        return "".join(parts)
    parts.append(">")
    for k in n["kids"]:
        parts.append(rng.choice(FILL) if style != "std" else "\n")
        parts.append(text(rng, k, style, depth + 1))
    parts.append(rng.choice(FILL) if style != "std" else "")
    parts.append("</%s>" % tag)
    return "".join(parts)


def document(rng, root, style="odd"):
    head = rng.choice(("", '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n"))
    return head + rng.choice(("", "<!-- top -->\n")) + text(rng, root, style) + rng.choice(("", "\n", "\n<!-- end -->\n"))
