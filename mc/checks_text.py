"""Layout, well-formedness and identification of the input text."""
import itertools
import os
import time
from xml.parsers import expat
from xml.sax.saxutils import escape

from . import explore as X
from . import model as M
from . import oracle as O
from . import render as R
from .checks import prop
from . import checks_api as A
from .checks_doc import LINES, bases, multi
from .checks_ndm import check_ndm, fillm, ndm_xml
from .engine import case

# ------------------------------------------------------------------ KVN layout
STYLES = {
    "eq": ["=", "   =   ", "\t=\t", " =", "= "],
    "unit": ["", "   ", "\t"],
    "comment": ["COMMENT    ", "COMMENT\t"],
    "sep": ["   ", "\t", " \t "],
    "nl": ["\r\n", "\r", "\n\r", "\n\n", "\n   \n", "\n\t\n\n"],
    "gap": [True],
    "lead": ["  ", "\t"],
    "trail": ["  ", "\t "],
    "final": [False],
}


def styles(maxdev):
    keys = list(STYLES)
    for n in range(0, maxdev + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(*(STYLES[k] for k in ks)):
                yield dict(zip(ks, vs))


def spread(doc):
    """KVN text with one blank (or odd) line after line i, for every i."""
    lines = R.content_lines(doc)
    n = len(lines)
    for i in range(1, n):
        for what, extra in (("blank", ""), ("spaces", "   "), ("two", "\n")):
            yield "%s after line %d" % (what, i), i, extra


@case
def kvn_spread(p):
    t = R.kvn_text(R.content_lines(p["doc"])).split("\n")
    t.insert(p["at"], p["extra"])
    return O.kcmp(O.io().from_string("\n".join(t)), p["doc"])


@case
def kvn_edge(p):
    """Whitespace before and after the whole text."""
    return O.kcmp(O.io().from_string(p["pre"] + R.kvn(p["doc"]) + p["post"]), p["doc"])


@prop("P20", "all layouts with at most 3 (thorough: 5) of 9 independent deviations (2 for conjunction data messages) "
             "for the minimal, full and multi-segment documents; one blank line at each place")
def p20(run, th):
    def gen(k):
        for n, b in bases(k):
            d = O.kdoc(M.fill(b))
            dev = (5 if n.endswith("min") else 4) if th else (2 if k == "cdm" or not n.endswith(":full") else 3)
            for st in styles(dev):
                yield [n, sorted(map(list, st.items()))], {"doc": d, "style": st}

    def gaps(k):
        for n, b in bases(k):
            d = O.kdoc(M.fill(b))
            for lab, i, e in spread(d):
                yield [n, lab], {"doc": d, "at": i, "extra": e}
            for pre, post in itertools.product(["", "\n", "  \n\n", "\t"], ["", "\n\n", "   ", "\n \n\t"]):
                yield [n, repr(pre), repr(post)], {"doc": d, "pre": pre, "post": post, "edge": 1}
    for k in M.KINDS:
        run.explore(k + " styles", gen(k), O.kvn_read)
        run.explore(k + " blank lines", (c for c in gaps(k) if "edge" not in c[1]), kvn_spread)
        run.explore(k + " surroundings", (c for c in gaps(k) if "edge" in c[1]), kvn_edge)


# ------------------------------------------------------------------ XML layout
XSI = ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'
NNS = ' xsi:noNamespaceSchemaLocation="http://sanaregistry.org/r/ndmxml/ndmxml-2.0.0-master-2.0.xsd"'
ODD = ["<opm>", "<ndm >", '<omm id="CCSDS_OMM_VERS">', "</x>", "<![CDATA[", "CCSDS_OPM_VERS = 2.0", "encoding='x'", "]]>", "\n<aem>\n"]
XML_STYLES = {
    "decl": ['<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?>", '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n',
             '<?xml version="1.0" encoding="ISO-8859-1"?>\n', "\n  "],
    "indent": ["", "    ", "\t"],
    "prolog": ["<!--%s-->\n" % x for x in ODD] + ["<?pi %s?>\n" % x for x in ODD],
    "nl": ["", "\r\n", "\n\n"],
    "quote": ["'"],
    "root": [XSI, XSI + NNS, XSI + ' xsi:schemaLocation="a b"'],
    "text": ["cdata", "charref", "hexref", "split"],
    "misc": ["comments", "pis", "comment in text"],
    "tail": ["\n", "\n<!-- end -->", "<!-- </opm> <ndm></ndm> -->", "<?pi <ndm>?>", "  \n\n"],
    "attrs": ["spaced", "reversed"],
    "empty": ["spaced tags"],
    "pad": [" ", "\n      "],
}


def xstyles(maxdev):
    keys = list(XML_STYLES)
    for n in range(0, maxdev + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(*(XML_STYLES[k] for k in ks)):
                yield dict(zip(ks, vs))


def xtext(v, how):
    if how == "cdata" and "]]>" not in v:
        return "<![CDATA[%s]]>" % v
    if how == "charref":
        return "".join("&#%d;" % ord(c) for c in v)
    if how == "hexref":
        return "".join(escape(c) if i % 2 else "&#x%x;" % ord(c) for i, c in enumerate(v))
    h = len(v) // 2
    if how == "split" and "]]>" not in v[h:]:
        return escape(v[:h]) + "<![CDATA[" + v[h:] + "]]>"
    if how == "comment in text":
        h = len(v) // 2
        return escape(v[:h]) + "<!-- x -->" + escape(v[h:])
    return escape(v)


def styled_xml(doc, st):
    pad = st.get("pad", "")
    nl, ind, q = st.get("nl", "\n"), st.get("indent", "  "), st.get("quote", '"')
    how = st.get("text") or (st.get("misc") if st.get("misc") == "comment in text" else None)
    misc = {"comments": "<!-- <x a='1'> & -->", "pis": "<?target some data?>"}.get(st.get("misc"))
    sp = " " if st.get("empty") else ""
    out = []

    def quoted(v):
        v = escape(v, {q: "&quot;" if q == '"' else "&apos;"})
        return q + v + q

    def attrs(d):
        res = []
        for f in M.CLASSES[d["_c"]]:
            if f["kind"] == "attribute":
                v = f.get("fixed", d.get(f["attr"]))
                if v is not None:
                    res.append((f["xml"], quoted(v)))
        if st.get("attrs") == "reversed":
            res.reverse()
        j = "  %s = %s" if st.get("attrs") == "spaced" else " %s=%s"
        return "".join(j % x for x in res)

    def emit(level, s):
        out.append(ind * level + s if nl else s)

    def node(tag, d, level, extra=""):
        a = attrs(d) + extra
        if M.is_leaf_class(d["_c"]):
            f = M.text_field(d["_c"])
            w = pad if f["type"] in ("decimal", "int") or M.is_enum(f) else ""
            emit(level, "<%s%s%s>%s</%s%s>" % (tag, a, sp, w + xtext(d[f["attr"]], how) + w, tag, sp))
            return
        emit(level, "<%s%s%s>" % (tag, a, sp))
        for f in R.xml_children(d):
            if f["attr"] not in d:
                continue
            for v in d[f["attr"]] if f["list"] else [d[f["attr"]]]:
                if misc:
                    emit(level + 1, misc)
                if M.is_class(f):
                    node(f["xml"], v, level + 1)
                else:
                    w = pad if f["type"] in ("decimal", "int") or M.is_enum(f) else ""
                    emit(level + 1, "<%s%s>%s</%s%s>" % (f["xml"], sp, w + xtext(v, how) + w, f["xml"], sp))
        emit(level, "</%s%s>" % (tag, sp))

    node(M.ROOTS[R.KIND_OF_CLASS[doc["_c"]]]["xml"], doc, 0, st.get("root", ""))
    return st.get("decl", "") + st.get("prolog", "") + nl.join(out) + st.get("tail", "")


@case
def xml_style(p):
    return M.compare(O.io().from_string(styled_xml(p["doc"], p["style"])), p["doc"])


@prop("P26", "all combinations of at most 2 (thorough: 3) of 12 independent deviations of the XML layout (declaration, encoding "
             "name, indentation, line ends, quotes, schema attributes, CDATA, character references, comments and processing "
             "instructions, markup in them, white space around numbers and vocabulary values) for the minimal and full documents")
def p26(run, th):
    def gen(k):
        for n, b in X.bases(k):
            d = M.fill(b)
            dev = 3 if th else (1 if n == "cdm:full" else 2)
            for st in xstyles(dev):
                yield [n, sorted(map(list, st.items()))], {"doc": d, "style": st}
    for k in M.KINDS:
        run.explore(k + " styles", gen(k), xml_style)

    def markup(k):
        # texts that look like markup, in every notation
        for n, b in X.bases(k):
            d = M.fill(b)
            ps = [p for p, f in X.slots(d) if f["type"] == "str" and not M.is_epoch(f)]
            for t in ["A <!-- b --> C", "A <?x y?> C", "<a>b</a>", "A &amp; B", "&#65;", "<![CDATA[x]]>", "]]>", "A ]]> B", "-->", "<?xml version='1.0' encoding='latin-1'?>",
                      "<!DOCTYPE x>", "%s" % M.ROOTS[k]["xml"], "</%s>" % M.ROOTS[k]["xml"], "'\"", "A\tB", "> <", "A> <b", "<a>  <b>", "A  <!--  -->  B", "A '  \"  B", "A = 'b'", "A >\t<"]:
                e = M.clone(d)
                for p in ps:
                    M.get(e, p[:-1])[p[-1]] = t
                for how in [None] + XML_STYLES["text"]:
                    for misc in [None] + XML_STYLES["misc"]:
                        st = {x: y for x, y in (("text", how), ("misc", misc)) if y}
                        yield [n, t, how, misc], {"doc": e, "style": st}
    for k in M.KINDS:
        run.explore(k + " texts that look like markup", markup(k), xml_style)


# ------------------------------------------------------------------ damaged XML
def well_formed(t):
    try:
        expat.ParserCreate().Parse(t, True)
        return True
    except (expat.ExpatError, ValueError):
        return False


def refused(text):
    try:
        o = O.io().from_string(text)
    except Exception:  # noqa: any refusal will do
        return []
    return ["accepted: %r gives %s" % (text[:80] + "..." + text[-80:], repr(o)[:200])]


@case
def xml_cut(p):
    """Every truncation in a range of lengths is refused, unless only white space is missing."""
    t = p["text"]
    out = []
    for n in range(p["from"], p["to"]):
        cut = t[:n]
        if well_formed(cut):
            if M.canon(M.decompile(O.io().from_string(cut))) != M.canon(M.decompile(O.io().from_string(t))):
                out.append("length %d: object differs" % n)
            continue
        out += ["cut at %d: %s" % (n, x) for x in refused(cut)]
    return out[:5]


DAMAGE = {"delete": lambda c: "", "<": lambda c: "<", ">": lambda c: ">", "&": lambda c: "&", "nul": lambda c: "\x00",
          "twice": lambda c: c + c, "/": lambda c: "/", "space": lambda c: " ", "\"": lambda c: "\"", "ctl": lambda c: "\x0b",
          "gone tail": None}


@case
def xml_damage(p):
    """One damaged character: not well-formed means refused."""
    t = p["text"]
    out = []
    n = 0
    for i in range(p["from"], p["to"]):
        for name, fn in DAMAGE.items():
            bad = t[:i] + (fn(t[i]) if fn else "") + (t[i + 1:] if fn else t[i + 2:])
            if not well_formed(bad):
                n += 1
                out += ["%s at %d: %s" % (name, i, x) for x in refused(bad)]
    return out[:5], "damaged texts refused"


BYTES = [b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf8\x88\x80\x80\x80"]


@case
def xml_bytes(p):
    """Bytes that are not UTF-8, at one place of a message given as bytes or file."""
    t = p["text"].encode("utf-8")
    out = []
    with A.Scratch() as s:
        path = os.path.join(s, "m.xml")
        for i in range(p["from"], min(p["to"], len(t)), p["step"]):
            for b in BYTES:
                for bad in (t[:i] + b + t[i:], t[:i] + b + t[i + 1:]):
                    ways = [lambda: O.io().from_bytes(bad), lambda: A.xml_io().from_bytes(bad)]
                    if b == BYTES[i % len(BYTES)]:
                        with open(path, "wb") as f:
                            f.write(bad)
                        ways += [lambda: O.io().from_path(path), lambda: A.xml_io().from_path(path)]
                    for j, w in enumerate(ways):
                        try:
                            w()
                        except Exception:  # noqa: any refusal will do
                            continue
                        out.append("%r at %d accepted by way %d" % (b, i, j))
    return out[:5], "damaged bytes refused"


@case
def xml_large(p):
    """A message of some megabytes, cut or damaged near its end."""
    k, n = p["kind"], p["lines"]
    d = M.fill(M.base(k))
    seg = d["body"]["segment"][0]["data"]
    (a,) = [a for a in ("state_vector", "attitude_state", "observation") if a in seg]
    one = seg[a][0]
    seg[a] = [one] * n
    t = R.xml(d)
    if len(getattr(O.io().from_string(t).body.segment[0].data, a)) != n:
        return ["the complete message was not read"]
    i = t.rindex("</")
    out = []
    for bad in (t[:i], t[:-1], t[:len(t) // 2], t[:i] + "<" + t[i:], t[:i] + "</x>" + t[i:], t[:len(t) // 2] + "\x00" + t[len(t) // 2:], t + "x", t + t):
        if not well_formed(bad):
            out += refused(bad)
    return out, "%d characters" % len(t)


@case
def xml_alien(p):
    """An element that the schema does not know at this place is refused."""
    return ["%s: %s" % (p["what"], x) for x in refused(p["text"])]


def alien(doc, kind):
    """Documents with one element too many: unknown, misplaced or repeated."""
    tag = M.ROOTS[kind]["xml"]

    def emit(path, extra, at):
        out = []

        def node(t, d, pth):
            attrs = "".join(' %s="%s"' % (f["xml"], f.get("fixed", d.get(f["attr"]))) for f in M.CLASSES[d["_c"]]
                            if f["kind"] == "attribute" and f.get("fixed", d.get(f["attr"])) is not None)
            if M.is_leaf_class(d["_c"]):
                out.append("<%s%s>%s%s</%s>" % (t, attrs, escape(d[M.text_field(d["_c"])["attr"]]), extra if pth == path else "", t))
                return
            out.append("<%s%s>" % (t, attrs))
            i = 0
            for f in R.xml_children(d):
                a = f["attr"]
                if a not in d:
                    continue
                for j, v in enumerate(d[a] if f["list"] else [d[a]]):
                    if pth == path and at == i:
                        out.append(extra)
                    i += 1
                    if M.is_class(f):
                        node(f["xml"], v, pth + ((a, j) if f["list"] else (a,)))
                    else:
                        out.append("<%s>%s</%s>" % (f["xml"], escape(v), f["xml"]))
            if pth == path and at == i:
                out.append(extra)
            out.append("</%s>" % t)
        node(tag, doc, ())
        return "".join(out)

    known = {f["xml"] for fs in M.CLASSES.values() for f in fs if f["kind"] == "element"}
    for path, n in M.walk(doc):
        loc = "/".join(map(str, path)) or "."
        if M.is_leaf_class(n["_c"]):
            yield [kind, loc, "child of a value"], {"text": emit(path, "<X>1</X>", 0), "what": "child of a value"}
            continue
        count = sum(len(n[f["attr"]]) if f["list"] else 1 for f in R.xml_children(n) if f["attr"] in n)
        mine = {f["xml"] for f in R.xml_children(n)}
        foreign = sorted(known - mine)
        for at in sorted({0, count // 2, count}):
            for x in ("<FOO>1</FOO>", "<epoch>2021-01-01T00:00:00</epoch>", "<%s>1</%s>" % (foreign[0], foreign[0]),
                      "<%s>1</%s>" % (foreign[-1], foreign[-1]), "<%s/>" % tag.upper()):
                if x[1:].split(">")[0].rstrip("/") in mine:
                    continue
                yield [kind, loc, at, x], {"text": emit(path, x, at), "what": "unknown element"}
        for f in R.xml_children(n):
            if f["attr"] in n and not f["list"]:
                v = n[f["attr"]]
                buf = []
                if isinstance(v, dict):
                    R.xml_node(f["xml"], v, 0, buf, False)
                else:
                    buf = ["<%s>%s</%s>" % (f["xml"], escape(v), f["xml"])]
                yield [kind, loc, "twice", f["xml"]], {"text": emit(path, "".join(buf), count), "what": "repeated element"}


@prop("P18", "every truncation and 11 damages of every character of the minimal (thorough: also full) documents of each type and "
             "of a combined message; 6 invalid byte sequences at every 7th (thorough: every) byte; data of 4000 (thorough: 400 to 20000) lines cut and damaged; an unknown, a misplaced and a repeated element in each element of the full documents")
def p18(run, th):
    def texts():
        for k in M.KINDS:
            for n, b in X.bases(k) if th else X.bases(k)[:1]:
                yield n, R.xml(M.fill(b))
        yield "ndm", ndm_xml({"message_id": "m", "comment": ["c"], "messages": fillm([M.base("opm"), M.base("oem")])})

    def byte_ranges():
        for n, t in texts():
            for i in range(0, len(t.encode("utf-8")), 200):
                yield [n, "bytes", i], {"text": t, "from": i, "to": i + 200, "step": 1 if th else 7}
    run.explore("bytes", byte_ranges(), xml_bytes)
    run.explore("large messages", (([k, n], {"kind": k, "lines": n}) for k in LINES for n in ((400, 4000, 20000) if th else (4000,))), xml_large)

    def ranges(size):
        for n, t in texts():
            for i in range(0, len(t), size):
                yield [n, i], {"text": t, "from": i, "to": min(i + size, len(t))}
    step = 40
    run.explore("truncations", ranges(step), xml_cut)
    run.explore("damaged characters", ranges(step), xml_damage)
    n = sum(len(t) for _, t in texts())
    run.states += n * (len(DAMAGE) + 1)
    run.transitions += n * (len(DAMAGE) + 1)
    run.notes["texts_tried"] = "%d truncations, up to %d damaged texts, grouped in cases of %d characters" % (n, n * len(DAMAGE), step)
    for k in M.KINDS:
        run.explore(k + " alien elements", alien(M.fill(M.base(k, k not in ("cdm", "rdm") or th)), k), xml_alien)


# ------------------------------------------------------------------ identification
def expected_kind(text):
    """What a text is, by the rules of the interface: a message type, json, or None (not identified)."""
    s = text.strip()
    for k in M.KINDS:
        if s.split("=")[0].strip() == M.ROOTS[k]["id"]:
            return k
    return None


@case
def identify(p):
    want = p["want"]
    t = p["text"]
    try:
        o = O.io().from_string(t)
    except NotImplementedError:
        return ([] if want == "json" else ["NotImplementedError for a %s text" % want]), "not implemented"
    except Exception as e:  # noqa
        if want == "nothing":
            return [], "refused"
        if want == "unidentified":
            return ([] if isinstance(e, ValueError) else ["%s instead of ValueError" % type(e).__name__]), "ValueError"
        return ["%s text refused: %s" % (want, e)], "refused"
    if want in ("json", "nothing", "unidentified"):
        return ["%s text accepted as %s" % (want, type(o).__name__)], "accepted"
    if "doc" in p:
        return (O.kcmp if p.get("kvn") else M.compare)(o, p["doc"]), want
    return ([] if type(o).__name__ == want else ["read as %s, expected %s" % (type(o).__name__, want)]), want


WS = ["", " ", "\n", "\t\r\n ", "\n\n\n"]


def near(word, chars):
    """All words with one character more, less, or other than this one, and its beginnings and repetitions."""
    seen = {word}
    for i in range(len(word) + 1):
        for w in [word[:i], word[i:]] * (0 < i < len(word)) + [word[:i] + word[i + 1:]] + [word[:i] + c + word[i:] for c in chars] + [word[:i] + c + word[i + 1:] for c in chars] \
                + [word[:i] + word[i:i + 1].swapcase() + word[i + 1:], word + word, word + "ION"]:
            if w and w not in seen:
                seen.add(w)
                yield i, w


def ident_cases():
    docs = {k: M.fill(M.base(k)) for k in M.KINDS}
    for k in M.KINDS:
        d, kd = docs[k], O.kdoc(docs[k])
        x, t = R.xml(d, decl=False), R.kvn(kd)
        for a, b in itertools.product(WS, WS):
            yield [k, "kvn", a, b], {"want": k, "text": a + t + b, "doc": kd, "kvn": 1}
            yield [k, "xml", a, b], {"want": k, "text": a + x + b, "doc": d}
        for j in M.KINDS:
            # the words of the other types inside a message do not change its type
            rj = M.ROOTS[j]
            for w in (rj["id"] + " = " + rj["version"], rj["xml"], "<%s>" % rj["xml"], "ndm", "<ndm>", "[]"):
                e = M.clone(d)
                e["header"]["comment"] = [w]
                e["header"]["originator"] = w
                e = M.reorder(e)
                yield [k, "mentions", w, "xml"], {"want": k, "text": R.xml(e, decl=False), "doc": e}
                ek = O.kdoc(e)
                yield [k, "mentions", w, "kvn"], {"want": k, "text": R.kvn(ek), "doc": ek, "kvn": 1}
            # XML comments, instructions and schema attributes that name another type
            for pre in ("<!-- <%s> -->" % rj["xml"], "<?%s?>" % rj["xml"], "<!-- ndm -->", "<!-- %s -->" % rj["id"]):
                yield [k, "prolog", pre], {"want": k, "text": pre + x, "doc": d}
            at = XSI + ' xsi:noNamespaceSchemaLocation="%s.xsd"' % rj["xml"]
            yield [k, "schema", rj["xml"]], {"want": k, "text": R.xml(d, root_attrs=at.strip()), "doc": d}
        root = M.ROOTS[k]["xml"]
        for bad in (root.upper(), root.title(), root + "x", "x" + root, root[:-1], root + "." + root, "_" + root, root + "-2"):
            yield [k, "root", bad], {"want": "nothing", "text": x.replace("<" + root + " ", "<%s " % bad, 1).replace("</%s>" % root, "</%s>" % bad)}
        vid = M.ROOTS[k]["id"]
        for bad in ("CCSDS_%sX_VERS" % k.upper(), "CCSDS_X%s_VERS" % k.upper()[1:], "CCSDS_%s" % k.upper(), "CCSDS_VERS", "CCSDS_", vid.lower(), "X" + vid,
                    "# " + vid, "COMMENT", k.upper() + "_VERS"):
            if bad == vid:
                continue
            yield [k, "version", bad], {"want": "nothing" if bad.startswith("CCSDS_") else "unidentified", "text": t.replace(vid, bad, 1)}
        ids = {M.ROOTS[j]["id"] for j in M.KINDS}
        for i, bad in near(vid, "AEXS_1.-"):
            if bad not in ids:
                yield [k, "near version", i, bad], {"want": "nothing" if bad.startswith("CCSDS_") else "unidentified", "text": t.replace(vid, bad, 1)}
        roots = {M.ROOTS[j]["xml"] for j in M.KINDS} | {"ndm"}
        for i, bad in near(root, "aexs_1.-"):
            if bad not in roots and (bad[:1].isalpha() or bad[:1] == "_"):
                yield [k, "near root", i, bad], {"want": "nothing", "text": x.replace("<" + root + " ", "<%s " % bad, 1).replace("</%s>" % root, "</%s>" % bad)}
        yield [k, "cut version"], {"want": "unidentified", "text": t.split("\n", 1)[1]}
        for a, b in itertools.product(WS, WS):
            yield [k, "json list", a, b], {"want": "json", "text": a + "[" + t + "]" + b}
        yield [k, "xml in list"], {"want": "json", "text": "[" + x + "]"}
        yield [k, "text then xml"], {"want": "unidentified", "text": "abc " + x}
        yield [k, "xml then text"], {"want": "unidentified", "text": x + " abc"}
        yield [k, "xml then kvn"], {"want": "unidentified", "text": x + "\n" + t}
        yield [k, "twice"], {"want": "nothing", "text": x + x}
        for j in M.KINDS:
            if j != k:
                yield [k, "xml then xml", j], {"want": "nothing", "text": x + "\n" + R.xml(docs[j], decl=False)}
    alphabet = ["a", " ", "\n", "<", ">", "[", "]", "=", "CCSDS", "_", "/", "\"", "0"]
    for n in range(0, 4):
        for ws in itertools.product(alphabet, repeat=n):
            s = "".join(ws)
            z = s.strip()
            if z.startswith("<") and z.endswith(">"):
                w = "nothing"
            elif z.startswith("CCSDS_"):
                w = "nothing"
            elif z.startswith("[") and z.endswith("]") and len(z) > 1:
                w = "json"
            elif z == "[" or z == "]":
                continue
            else:
                w = "unidentified"
            yield ["tokens", s], {"want": w, "text": s}


@prop("P13", "each message type in both encodings with all surroundings of white space, with every type's name in comments, "
             "texts, prologs and schema attributes, with 18 wrong names, and all texts of at most 3 of 13 tokens")
def p13(run, th):
    run.explore("texts", ident_cases(), identify)


# ------------------------------------------------------------------ arbitrary KVN texts
def outcome(text):
    try:
        o = O.io().from_string(text)
        return "object " + type(o).__name__ + " " + repr(o)
    except MemoryError:
        raise
    except Exception as e:  # noqa
        return "refused %s" % type(e).__name__


@case
def kvn_total(p):
    """Object or exception, soon, and the same again the next time."""
    out, kinds = [], {}
    for t in p["texts"]:
        t0 = time.time()
        a = outcome(t)
        dt = time.time() - t0
        b = outcome(t)
        if a != b:
            out.append("%r: first %s, then %s" % (t[:200], a[:100], b[:100]))
        if dt > 20:
            out.append("%r: took %.0f s" % (t[:200], dt))
        if a.startswith("object") and not a.startswith("object " + p["class"] + " "):
            out.append("%r: gives %s" % (t[:200], a[:60]))
        kinds[a.split(" ")[0]] = 1
    return out[:4], "+".join(sorted(kinds))


def line_alphabet(k):
    """Typical lines of a message type: marks, keywords of different blocks, data, comments, noise."""
    d = O.kdoc(M.fill(M.base(k, True)))
    L = R.content_lines(d)
    body = [R.kvn_text([x]).rstrip("\n") for x in L[1:]]
    pick, seen = [], set()
    for x, t in zip(L[1:], body):
        c = (x[0], x[1] if x[0] == "mark" else "") if x[0] != "kv" else ("kv", len(pick) % 4)
        if c not in seen:
            seen.add(c)
            pick.append(t)
    pick += [body[len(body) // 2], body[-1]]
    pick += ["", "FOO", "FOO = ", "= 1", "COMMENT", "1 2 3", "USER_DEFINED_A = 1", "RANGE = x", "EPOCH = 2021-001T00:00:00", "META_START", "DATA_STOP",
             "COVARIANCE_START", "=", "X_ANGLE = 1 [deg]"]
    return R.kvn_text(L[:1]), sorted(set(pick))


def line_faults(k):
    """One and two line-level faults: delete, repeat, swap, cut, foreign line, of valid documents."""
    head, alpha = line_alphabet(k)
    for n, b in bases(k):
        L = R.kvn(O.kdoc(M.fill(b))).split("\n")[:-1]
        m = len(L)
        for i in range(0, m):
            yield [n, "cut", i], L[:i + 1]
            yield [n, "delete", i], L[:i] + L[i + 1:]
            yield [n, "repeat", i], L[:i + 1] + L[i:]
            yield [n, "truncated line", i], L[:i] + [L[i][:len(L[i]) // 2]] + L[i + 1:]
            yield [n, "no value", i], L[:i] + [L[i].split("=")[0]] + L[i + 1:]
            if i + 1 < m:
                yield [n, "swap", i], L[:i] + [L[i + 1], L[i]] + L[i + 2:]
            for a in ("FOO", "COMMENT x", "META_STOP", "DATA_STOP", "1 2 3", "EPOCH = 2021-001T00:00:00", "FOO = 1"):
                yield [n, "insert " + a, i], L[:i + 1] + [a] + L[i + 1:]


RUNS = ["a", "A", "0", " ", "\t", "-", "=", "[", "]", ".", ",", "_", ":", "+", "e", "\u00e9", "a ", "1 ", "- ", "= ", "[]", "a-", "1.", "E+", "-T", "\t ", "A_", "<", "&amp;"]


def long_runs(k, th):
    """A character or pair repeated many times, at each part of each kind of line."""
    head, alpha = line_alphabet(k)
    for n, b in X.bases(k):
        L = R.kvn(O.kdoc(M.fill(b))).split("\n")[:-1]
        seen = set()
        for i, line in enumerate(L):
            kind = (line[:9] in ("COMMENT  ", "COMMENT =") or line.startswith("COMMENT"), "=" in line, "[" in line, line[:1].isdigit(), line.startswith("USER"), i == 0, "T" in line.split("=")[-1])
            if kind in seen and not (th and n.endswith("min")):
                continue
            seen.add(kind)
            cuts = sorted({0, 7 if kind[0] else 1, line.find("=") if kind[1] else 3, line.find("=") + 2, line.find("[") if kind[2] else len(line) - 1, len(line)})
            for c in cuts:
                for r in RUNS:
                    for m in (40, 3000):
                        for end in ("", "!", "x"):
                            if m == 40 or end == "!":
                                yield [n, i, c, r, m, end], L[:i] + [line[:c] + r * m + end + line[c:]] + L[i + 1:]


@prop("P28", "a character or pair (29) repeated 40 and 3000 times at up to 6 parts of each kind of line, ended in 3 ways; all texts of a version line and at most 2 (thorough 3) lines over 20-30 typical lines of each message type, and 13 line-level faults at each line of the "
             "minimal, full and multi-segment documents", ["a reader that needs more than 60 s for some of these texts counts as not terminating"])
def p28(run, th):
    size = 50

    def grouped(k):
        head, alpha = line_alphabet(k)

        def texts():
            for n in range(0, 4 if th else 3):
                for ls in itertools.product(alpha, repeat=n):
                    yield head + "\n".join(ls)
            for key, ls in long_runs(k, th):
                yield "\n".join(ls) + "\n"
            for key, ls in line_faults(k):
                yield "\n".join(ls) + "\n"
        buf, i = [], 0
        for t in texts():
            buf.append(t)
            if len(buf) == size:
                yield [k, i], {"texts": buf, "class": M.root_class(k)}
                buf, i = [], i + 1
        if buf:
            yield [k, i], {"texts": buf, "class": M.root_class(k)}
    total = [0]

    def counting(g):
        for key, p in g:
            total[0] += len(p["texts"])
            yield key, p
    for k in M.KINDS:
        run.explore(k + " texts", counting(grouped(k)), kvn_total, chunk=1)
    run.states = run.transitions = run.traces = total[0]
