"""Case functions shared by the document checks: real code against the reference encoders."""
import re
import xml.etree.ElementTree as ET
from decimal import Decimal

from . import model as M
from . import render as R
from .engine import case


def io():
    from ccsds_ndm.ndm_io import NdmIo
    return NdmIo()


def fmt(name):
    from ccsds_ndm.ndm_io import NDMFileFormats
    return NDMFileFormats[name]


def kcmp(obj, doc):
    """Object tree against document after a KVN read.

    KVN cannot tell whether a comment belongs to a block or to its first sub-block, so comments are
    compared as a sequence of lines, everything else field by field."""
    r = M.compare(obj, doc, ignore_comments=True)
    if r:
        return r
    r = R.line_diff(R.kvn_lines(M.decompile(obj)), R.kvn_lines(doc))
    return [r] if r else []


def kdoc(doc):
    return M.strip_data_units(M.clone(doc))


# -------------------------------------------------------------- independent XML infoset
def infoset(text):
    """(tag, sorted attributes, text, children) of an XML text, by the standard library's parser."""
    def node(e):
        kids = [node(x) for x in e]
        tail = "".join((x.tail or "") for x in e).strip()
        txt = e.text or ""
        if kids:
            txt = txt.strip()
        return [e.tag, sorted(e.attrib.items()), txt + tail, kids]
    return node(ET.fromstring(text.encode("utf-8") if "encoding" in text[:80] else text))


def info_diff(g, w, path=""):
    p = "%s/%s" % (path, w[0])
    if g[0] != w[0]:
        return "%s: element <%s> instead" % (p, g[0])
    if g[1] != w[1]:
        return "%s: attributes %r, expected %r" % (p, g[1], w[1])
    if not (g[2] == w[2] or (not w[3] and numeric(w[0]) and R.same_value(g[2], w[2]))):
        return "%s: text %r, expected %r" % (p, g[2], w[2])
    gt, wt = [x[0] for x in g[3]], [x[0] for x in w[3]]
    if gt != wt:
        return "%s: children %r, expected %r" % (p, gt, wt)
    for a, b in zip(g[3], w[3]):
        r = info_diff(a, b, p)
        if r:
            return r
    return None


_NUMERIC = None


def numeric(tag):
    """True if an element of that name carries a number somewhere in the vocabulary."""
    global _NUMERIC
    if _NUMERIC is None:
        _NUMERIC = set()
        for c, fs in M.CLASSES.items():
            for f in fs:
                t = f["type"]
                if t in ("decimal", "int"):
                    _NUMERIC.add(f["xml"])
                if t.startswith("class:") and M.is_leaf_class(M.tname(f)) and \
                        M.text_field(M.tname(f))["type"] in ("decimal", "int"):
                    _NUMERIC.add(f["xml"])
    return tag in _NUMERIC


# -------------------------------------------------------------- case functions (payload: {"doc": ...})
@case
def kvn_read(p):
    d = p["doc"]
    return kcmp(io().from_string(R.kvn(d, p.get("style"))), d)


@case
def xml_read(p):
    d = p["doc"]
    return M.compare(io().from_string(R.xml(d)), d)


@case
def kvn_write(p):
    d = p["doc"]
    t = io().to_string(M.build(d, {} if p.get("shared") else None), fmt("KVN"))
    if not isinstance(t, str):
        return ["no text written: %r" % (t,)]
    r = R.line_diff(R.tokenize(t, R.KIND_OF_CLASS[d["_c"]]), R.content_lines(d))
    return [r] if r else []


@case
def xml_write(p):
    d = p["doc"]
    t = io().to_string(M.build(d, {} if p.get("shared") else None), fmt("XML"))
    r = info_diff(infoset(t), infoset(R.xml(d)))
    return [r] if r else []


@case
def kvn_round(p):
    d = p["doc"]
    t = io().to_string(M.build(d), fmt("KVN"))
    o = io().from_string(t)
    r = kcmp(o, d)
    if r:
        return r
    t2 = io().to_string(o, fmt("KVN"))
    r = R.line_diff(R.tokenize(t2, R.KIND_OF_CLASS[d["_c"]]), R.tokenize(t, R.KIND_OF_CLASS[d["_c"]]))
    return ["second write differs: %s" % r] if r else []


@case
def xml_round(p):
    d = p["doc"]
    o = M.build(d)
    t = io().to_string(o, fmt("XML"))
    o2 = io().from_string(t)
    r = M.compare(o2, d)
    if r:
        return r
    if o2 != o:
        return ["re-read object tree is not equal to the written one"]
    r = info_diff(infoset(io().to_string(o2, fmt("XML"))), infoset(t))
    return ["second write differs: %s" % r] if r else []


@case
def convert(p):
    """KVN text -> XML text -> KVN text, and XML text -> KVN text -> XML text."""
    d = p["doc"]
    k = R.KIND_OF_CLASS[d["_c"]]
    x = io().to_string(io().from_string(R.kvn(d)), fmt("XML"))
    o = io().from_string(x)
    r = kcmp(o, d)
    if r:
        return ["KVN to XML: %s" % y for y in r]
    t = io().to_string(o, fmt("KVN"))
    r = R.line_diff(R.tokenize(t, k), R.content_lines(d))
    if r:
        return ["KVN to XML to KVN: " + r]
    t = io().to_string(io().from_string(R.xml(d)), fmt("KVN"))
    r = R.line_diff(R.tokenize(t, k), R.content_lines(d))
    if r:
        return ["XML to KVN: " + r]
    o = io().from_string(t)
    r = kcmp(o, d)
    if r:
        return ["XML to KVN to object: %s" % y for y in r]
    x2 = io().to_string(o, fmt("XML"))
    o2 = io().from_string(x2)
    if o2 != o:
        return ["object tree changed by a trip through XML"]
    if not p.get("comments"):
        g, w = strip_comments(infoset(x2)), strip_comments(infoset(R.xml(d)))
        r = info_diff(g, w)
        if r:
            return ["XML to KVN to XML: " + r]
    return []


def strip_comments(n):
    return [n[0], n[1], n[2], [strip_comments(x) for x in n[3] if x[0] != "COMMENT"]]


def one_line(v):
    """A text as one line of KVN: line breaks, with the white space around them, become one space."""
    return re.sub(r"\s*[\r\n]\s*", " ", v).strip()


@case
def kvn_of_lines(p):
    """Texts of several lines (XML allows them) in KVN."""
    d = p["doc"]
    k = R.KIND_OF_CLASS[d["_c"]]
    want = M.clone(d)
    for path, n in list(M.walk(want)):
        for f in M.doc_fields(n["_c"]):
            if f["type"] == "str" and f["attr"] in n and not M.is_epoch(f):
                v = n[f["attr"]]
                n[f["attr"]] = [one_line(x) for x in v] if f["list"] else one_line(v)
    out = []
    for how, o in (("built", M.build(d)), ("read", io().from_string(R.xml(d)))):
        t = io().to_string(o, fmt("KVN"))
        r = R.line_diff(R.tokenize(t, k), R.content_lines(want))
        out += ["%s: %s" % (how, r)] if r else ["%s, re-read: %s" % (how, x) for x in kcmp(io().from_string(t), want)]
    return out


@case
def with_ints(p):
    """Whole numbers given as int."""
    d = p["doc"]
    k = R.KIND_OF_CLASS[d["_c"]]
    o = M.build(d)
    for path, n in list(M.walk(d)):
        x = o
        for a in path:
            x = x[a] if isinstance(a, int) else getattr(x, a)
        for f in M.doc_fields(n["_c"]):
            if f["type"] == "decimal" and f["attr"] in n and not f["list"] and Decimal(n[f["attr"]]) == int(Decimal(n[f["attr"]])):
                setattr(x, f["attr"], int(n[f["attr"]]))
    r = R.line_diff(R.tokenize(io().to_string(o, fmt("KVN")), k), R.content_lines(d))
    s = info_diff(infoset(io().to_string(o, fmt("XML"))), infoset(R.xml(d)))
    return (["KVN: " + r] if r else []) + (["XML: " + s] if s else [])


ALL4 = {"kvn_read": kvn_read, "kvn_write": kvn_write, "xml_read": xml_read, "xml_write": xml_write}


@case
def all_four(p):
    """Both encodings, both directions; one fault in any of them is a problem."""
    out = []
    from .engine import describe
    for n, f in ALL4.items():
        try:
            out += ["%s: %s" % (n, x) for x in f(p)]
        except Exception as e:  # noqa
            out.append("%s raised %s" % (n, describe(e)))
    return out


def _several(names):
    def fn(p):
        from .engine import describe
        out = []
        for n in names:
            try:
                out += ["%s: %s" % (n, x) for x in ALL4[n](p)]
            except Exception as e:  # noqa
                out.append("%s raised %s" % (n, describe(e)))
        return out
    return fn


@case
def kvn_both(p):
    return _several(["kvn_read", "kvn_write"])(p)


@case
def xml_both(p):
    return _several(["xml_read", "xml_write"])(p)


@case
def xml_text(p):
    ALL4["xml_round"] = xml_round
    return _several(["xml_round"] if p.get("cr") else ["xml_read", "xml_write", "xml_round"])(p)


@case
def written(p):
    """What is written, and what is read of it."""
    ALL4["kvn_round"] = kvn_round
    return _several(["kvn_write", "kvn_round", "xml_read", "xml_write"])(p)
