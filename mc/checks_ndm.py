"""Combined instantiations: several messages in one NDM."""
import itertools
import os
import pathlib

from . import model as M
from . import oracle as O
from . import render as R
from .checks import prop
from .engine import case


def ndm_xml(p):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', "<ndm%s>" % p.get("attrs", "")]
    if p.get("message_id") is not None:
        out.append("<MESSAGE_ID>%s</MESSAGE_ID>" % p["message_id"])
    out += ["<COMMENT>%s</COMMENT>" % c for c in p.get("comment", [])]
    for d in p["messages"]:
        R.xml_node(M.ROOTS[R.KIND_OF_CLASS[d["_c"]]]["xml"], d, 1, out, True)
    return "\n".join(out + ["</ndm>"])


def check_ndm(o, p):
    """Object against the combined message (one message: that message itself)."""
    ms = p["messages"]
    if len(ms) == 1:
        return M.compare(o, ms[0])
    if type(o).__name__ != "Ndm":
        return ["expected an Ndm object, got %s" % type(o).__name__]
    out = []
    if o.message_id != p.get("message_id"):
        out.append("message id: expected %r, got %r" % (p.get("message_id"), o.message_id))
    if list(o.comment) != p.get("comment", []):
        out.append("comments: expected %r, got %r" % (p.get("comment", []), o.comment))
    for k in M.KINDS:
        want = [d for d in ms if d["_c"] == M.root_class(k)]
        got = getattr(o, k)
        if len(got) != len(want):
            out.append("%s: expected %d message(s), got %d" % (k, len(want), len(got)))
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            out += M.compare(g, w, "ndm.%s[%d]" % (k, i))
    return out[:10]


def build_ndm(p, types=False, shared=None):
    """Ndm object tree; messages as root classes, or as the schema types declared for the lists."""
    m = M.models()
    kw = {}
    for k in M.KINDS:
        kw[k] = []
    for d in p["messages"]:
        k = R.KIND_OF_CLASS[d["_c"]]
        o = M.build(d, shared)
        if types:
            o = getattr(m, d["_c"] + "Type")(header=o.header, body=o.body)
        kw[k].append(o)
    return m.Ndm(message_id=p.get("message_id"), comment=list(p.get("comment", [])), **kw)


@case
def ndm_read(p):
    o = O.io().from_string(ndm_xml(p))
    return check_ndm(o, p), "%s of %d" % (type(o).__name__, len(p["messages"]))


def ndm_info(text):
    """Infoset of a combined message, messages of different types in any order."""
    t = O.infoset(text)
    head = [x for x in t[3] if x[0] in ("MESSAGE_ID", "COMMENT")]
    body = sorted((x for x in t[3] if x[0] not in ("MESSAGE_ID", "COMMENT")), key=lambda x: x[0])
    lead = t[3][:len(head)]
    return t[0], t[1], lead == head, [head, body]


@case
def ndm_write(p):
    out = []
    n = len(p["messages"])
    for how, o in (("built", build_ndm(p)), ("built from types", build_ndm(p, True)), ("built of shared objects", build_ndm(p, False, {})),
                   ("read", O.io().from_string(ndm_xml(p)))):
        before = repr(o)
        t = O.io().to_string(o, O.fmt("XML"))
        back = O.io().from_string(t)
        out += ["%s, XML re-read: %s" % (how, x) for x in check_ndm(back, p)]
        if not (how == "read" and n == 1):
            g, w = ndm_info(t), ndm_info(ndm_xml(dict(p, attrs="")))
            if g[:3] != w[:3] or any(len(x) != len(y) or any(O.info_diff(a, b) for a, b in zip(x, y))
                                     for x, y in zip(g[3], w[3])):
                d = [O.info_diff(a, b) for x, y in zip(g[3], w[3]) for a, b in zip(x, y)]
                out.append("%s, XML: %r" % (how, [x for x in d if x][:2] or (g[:2], [[y[0] for y in x] for x in g[3]])))
        try:
            k = O.io().to_string(o, O.fmt("KVN"))
            if n != 1:
                out.append("%s: KVN written for %d messages" % (how, n))
            else:
                d = p["messages"][0]
                r = R.line_diff(R.tokenize(k, R.KIND_OF_CLASS[d["_c"]]), R.content_lines(d))
                if r:
                    out.append("%s, KVN: %s" % (how, r))
        except NotImplementedError:
            if n == 1:
                out.append("%s: KVN refused for a single message" % how)
        if repr(o) != before:
            out.append("%s: writing changed the object tree" % how)
    return out[:8], "refused" if n != 1 else "written"


@case
def ndm_ways(p):
    """The same through every entry point."""
    from .checks_api import Scratch, kvn_io, xml_io
    n, x = len(p["messages"]), ndm_xml(p)
    out = []
    with Scratch() as s:
        path = os.path.join(s, "m")
        if p["read"]:
            with open(path, "wb") as f:
                f.write(x.encode("utf-8"))
            for name, make in (("NdmIo", O.io), ("NdmXmlIo", xml_io)):
                one = make()
                for way, arg in (("from_string", x), ("from_bytes", x.encode("utf-8")), ("from_path", path), ("from_path", pathlib.Path(path)), ("from_string", x)):
                    for io in (one, make()):
                        out += ["%s.%s: %s" % (name, way, y) for y in check_ndm(getattr(io, way)(arg), p)]
            return out[:6]
        want = O.io().to_string(build_ndm(p), O.fmt("XML"))
        for name, make, a in (("NdmIo", O.io, [O.fmt("XML")]), ("NdmXmlIo", xml_io, [])):
            io = make()
            for again in (0, 1):
                o = build_ndm(p)
                if io.to_string(o, *a) != want:
                    out.append(name + ".to_string gives another text")
                io.to_file(o, *a, path if again else pathlib.Path(path))
                with open(path, "rb") as f:
                    if f.read() != want.encode("utf-8"):
                        out.append(name + ".to_file gives another text")
        for name, make, a in (("NdmIo", O.io, [O.fmt("KVN")]), ("NdmKvnIo", kvn_io, [])):
            io = make()
            for again in (0, 1):
                o = build_ndm(p)
                before = repr(o)
                text = O.io().to_string(o.__class__ and M.build(p["messages"][0]), O.fmt("KVN")) if n == 1 else None
                for way in ("to_string", "to_file"):
                    with open(path, "wb") as f:
                        f.write(b"previous")
                    try:
                        t = getattr(io, way)(o, *a, *([path] if way == "to_file" else []))
                    except NotImplementedError:
                        if n == 1:
                            out.append("%s.%s refuses a single message" % (name, way))
                        continue
                    finally:
                        with open(path, "rb") as f:
                            got = f.read()
                        if n != 1 or way == "to_string":
                            out += ["%s.%s changed the file" % (name, way)] if got != b"previous" else []
                    if n != 1:
                        out.append("%s.%s accepts %d messages" % (name, way, n))
                    elif (t if way == "to_string" else got.decode("utf-8")) != text:
                        out.append("%s.%s gives another text than for the message" % (name, way))
                if repr(o) != before:
                    out.append("writing changed the object tree")
        if sorted(os.listdir(s)) != ["m"]:
            out.append("stray files")
    return out[:6]


def ways(read, th):
    lo = {k: M.base(k) for k in M.KINDS}
    head = {"message_id": "\u00e9 1", "comment": ["c1", "\u65e5"]}
    for n in range(0, 4 if th else 3):
        for seq in itertools.product(M.KINDS, repeat=n):
            for h in ({}, head):
                yield ["+".join(seq) or "empty", "head" if h else "bare"], dict(h, read=read, messages=fillm([lo[k] for k in seq]))
    for k in M.KINDS:
        yield ["full " + k], dict(head, read=read, messages=fillm([M.base(k, True)] * 2))


def fillm(shapes):
    v = M.Values()
    return [M.fill(s, v) for s in shapes]


def combos(maxlen, full_upto):
    lo = {k: M.base(k) for k in M.KINDS}
    hi = {k: M.base(k, True) for k in M.KINDS}
    heads = [{}, {"message_id": "MSG 1", "comment": ["c1", "c2"]}]
    for n in range(0, maxlen + 1):
        for seq in itertools.product(M.KINDS, repeat=n):
            for h, head in enumerate(heads):
                if n > 2 and h and seq != tuple(sorted(seq)):
                    continue
                yield ["+".join(seq) or "empty", "head" if h else "bare"], dict(head, messages=fillm([lo[k] for k in seq]))
    for n in range(1, full_upto + 1):
        for seq in itertools.product(M.KINDS, repeat=n):
            yield ["+".join(seq), "full"], dict(heads[1], messages=fillm([hi[k] for k in seq]))
            if n == 2:
                yield ["+".join(seq), "full, min"], dict(heads[0], messages=fillm([hi[seq[0]], lo[seq[1]]]))
    for k in M.KINDS:
        for n in (4, 5, 11, 33, 70) + ((300, 1100) if k in ("opm", "tdm") else ()):
            yield ["%d x %s" % (n, k)], dict(heads[1], messages=fillm([lo[k]] * n))
    for n in (6, 20):
        for a, b in itertools.combinations(M.KINDS, 2):
            yield ["%d x %s+%s" % (n, a, b)], dict(heads[n % 4 // 2], messages=fillm([lo[a], lo[b]] * n))
        yield ["%d x all" % n], dict(heads[1], messages=fillm([lo[k] for k in M.KINDS] * n))
    # equal messages next to each other
    for n in range(2, 4):
        for seq in itertools.product(M.KINDS, repeat=n):
            v = M.Falling()
            yield ["+".join(seq), "descending"], dict(heads[n % 2], messages=[M.fill(lo[k], v) for k in seq])
            for name in ("same", "zero", "falling"):
                yield ["+".join(seq), name], dict(heads[n % 2], messages=[M.fill(lo[k], M.FILLS[name]()) for k in seq])
    for k in M.KINDS:
        yield ["2 x " + k, "same, full"], dict(heads[0], messages=[M.fill(hi[k], M.Same()) for _ in (1, 2)])
        yield ["2 x " + k, "equal, full"], dict(heads[1], messages=[M.fill(hi[k]) for _ in (1, 2)])
    # schema attributes of the ndm element; published files use the prefix without declaring it
    loc = ' xsi:noNamespaceSchemaLocation="http://cwe.ccsds.org/moims/docs/ndmxml-1.0-master.xsd"'
    for attrs in (loc, ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"' + loc):
        for seq in [()] + [(k,) for k in M.KINDS] + list(itertools.product(M.KINDS, repeat=2)):
            yield ["+".join(seq) or "empty", attrs[:12]], dict(heads[1], attrs=attrs, messages=fillm([lo[k] for k in seq]))
    for h in ({"message_id": "x"}, {"comment": ["a"]}, {"comment": ["a", "", "b"]}, {"message_id": "a b", "comment": ["x" * 80] * 3}):
        for seq in ((), ("opm",), ("opm", "oem"), ("tdm", "tdm")):
            yield ["+".join(seq) or "empty", str(h)], dict(h, messages=fillm([lo[k] for k in seq]))


BOUND = "every sequence of at most {} messages over the eight types (order included), with and without message id and " \
        "comments, minimal contents; sequences of at most {} with full contents; up to 1100 messages of one type, 160 of all types; equal messages next to each other; sequences of at most 2 (3) through every entry point"


@prop("P11", BOUND.format("4 (thorough 5)", 2))
def p11(run, th):
    run.explore("combined messages", combos(5 if th else 4, 2), ndm_read)
    run.explore("ways to read", ways(1, th), ndm_ways)


@prop("P12", BOUND.format("3 (thorough 4)", "2"))
def p12(run, th):
    run.explore("combined messages", combos(4 if th else 3, 2), ndm_write)
    run.explore("ways to write", ways(0, th), ndm_ways)
