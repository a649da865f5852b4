"""Properties of the interface itself: entry points, histories, side effects, failures, environment."""
import copy
import decimal
import gc
import itertools
import json
import locale
import logging
import os
import pathlib
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings
from enum import Enum

from . import engine
from . import explore as X
from . import model as M
from . import oracle as O
from . import render as R
from .checks import prop
from .checks_ndm import build_ndm, check_ndm, fillm, ndm_info, ndm_xml
from .engine import case


def kvn_io():
    from ccsds_ndm.ndm_kvn_io import NdmKvnIo
    return NdmKvnIo()


def xml_io():
    from ccsds_ndm.ndm_xml_io import NdmXmlIo
    return NdmXmlIo()


class Scratch:
    """A scratch directory, current while in use, removed afterwards."""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="ndmcheck-")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def cmp(kvn, o, d):
    return O.kcmp(o, d) if kvn else M.compare(o, d)


# ------------------------------------------------------------------ entry points
READERS = ["NdmIo.from_string", "NdmIo.from_bytes", "NdmIo.from_path", "low.from_string", "low.from_bytes", "low.from_path"]
NAMES = ["m.xml", "m.kvn", "a b/c d.txt", "\u00e9\u65e5.opm", "noext", "x.json", "a$HOME ${PATH}%41", "~", "*?[a-z]", "-r", " sp ", "a\\b", "x.xml.gz"]
PATHS = ["str", "Path", "relative str", "relative Path", "parent"]


def locate(d, name, how):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p, {"str": p, "Path": pathlib.Path(p), "relative str": name, "relative Path": pathlib.Path(name),
               "parent": os.path.join(d, "sub", "..", name)}[how]


@case
def entry_read(p):
    d, kvn = p["doc"], p["kvn"]
    text = R.kvn(d) if kvn else R.xml(d)
    text = text.replace("\n", ("\n", "\r\n", "\r", "\n\r")[p.get("crlf", 0)])
    raw = text.encode("utf-8")
    io = O.io() if p["entry"].startswith("NdmIo") else kvn_io() if kvn else xml_io()
    fn = p["entry"].split(".")[1]
    if fn == "from_string":
        return cmp(kvn, io.from_string(text), d)
    if fn == "from_bytes":
        return cmp(kvn, io.from_bytes(raw), d)
    with Scratch() as s:
        os.mkdir("sub")
        f, arg = locate(s, p["name"], p["how"])
        with open(f, "wb") as fp:
            fp.write(raw)
        st = os.stat(f)
        out = cmp(kvn, io.from_path(arg), d)
        with open(f, "rb") as fp:
            if fp.read() != raw or os.stat(f).st_mtime_ns != st.st_mtime_ns:
                out = out + ["reading changed the file"]
        return out


@case
def entry_any(p):
    return entry_write(p) if p.get("write") else entry_read(p)


BEFORE = ["absent", "shorter", "longer", "source"]


@case
def entry_write(p):
    d, kvn = p["doc"], p["kvn"]
    o = M.build(d)
    f = O.fmt("KVN" if kvn else "XML")
    want = O.io().to_string(o, f)
    low = (kvn_io() if kvn else xml_io()).to_string(o)
    out = []
    if low != want:
        out.append("NdmIo and the format's own writer give different texts")
    with Scratch() as s:
        os.mkdir("sub")
        path, arg = locate(s, p["name"], p["how"])
        prior = {"absent": None, "shorter": "x", "longer": "old content\n" * 3000, "source": R.kvn(d) if kvn else R.xml(d)}[p["before"]]
        if prior is not None:
            with open(path, "w", encoding="utf-8") as fp:
                fp.write(prior)
            if p["before"] == "source":
                o = O.io().from_path(arg)
                want = O.io().to_string(o, f)
        files = sorted(os.listdir(s))
        if p["entry"] == "NdmIo":
            O.io().to_file(o, f, arg)
        else:
            (kvn_io() if kvn else xml_io()).to_file(o, arg)
        with open(path, "rb") as fp:
            got = fp.read()
        if got != want.encode("utf-8"):
            out.append("file differs from the text: %r" % got[:80])
        extra = set(os.listdir(s)) - set(files) - {p["name"].split("/")[0]}
        if extra:
            out.append("stray files %r" % sorted(extra))
        out += cmp(kvn, O.io().from_path(arg), d)
    return out


def rich(k, full):
    d = M.fill(M.base(k, full))
    d["header"]["originator"] = "\u00e9\u65e5\U0001d11e"
    d["header"]["comment"] = ["\u20ac <&> \u00df", "a\u2028b\u0085c"]
    return M.reorder(d)


ODD = ["mark", "mark twice", "mark inside", "mark at the end", "space", "no-break space", "line separator", "form feed", "next line", "zero", "zero at the end", "substitute at the end",
       "two bytes per character", "one byte per character", "declared one byte", "declared two bytes", "broken character", "surrogate", "empty", "white space", "nothing after the version",
       "declaration", "declaration after space", "declaration single quotes", "declaration without encoding", "standalone", "version 1.1", "trailing space", "trailing text", "quoted"]


def odd_bytes(t, w, kvn):
    """The bytes of a message in an odd form."""
    e = t.encode("utf-8")
    bom = b"\xef\xbb\xbf"
    decl = '<?xml version="1.0" encoding="%s"?>\n'
    x = t[t.index("?>") + 2:].lstrip() if t.startswith("<?xml") else t
    return {"mark": bom + e, "mark twice": bom * 2 + e, "mark inside": e.replace(b"\n", b"\n" + bom, 1), "mark at the end": e + bom, "space": b" \t\n" + e,
            "no-break space": "\u00a0".encode() + e, "line separator": "\u2028".encode() + e, "form feed": b"\x0c" + e, "next line": "\u0085".encode() + e, "zero": b"\0" + e,
            "zero at the end": e + b"\0", "substitute at the end": e + b"\x1a", "two bytes per character": t.encode("utf-16"), "one byte per character": t.encode("latin-1", "replace"),
            "declared one byte": (decl % "iso-8859-1").encode() + x.encode("latin-1", "replace"), "declared two bytes": (decl % "utf-16" + x).encode("utf-16"),
            "broken character": e.replace("\u00e9".encode(), b"\xc3", 1), "surrogate": e.replace("\u00e9".encode(), b"\xed\xa0\x80", 1), "empty": b"", "white space": b" \n\t ",
            "nothing after the version": e.split(b"\n")[0], "declaration": (decl % "UTF-8" + x).encode(), "declaration after space": ("\n" + decl % "UTF-8" + x).encode(),
            "declaration single quotes": ("<?xml version='1.0' encoding='us-ascii'?>" + x).encode(), "declaration without encoding": ('<?xml version="1.0"?>' + x).encode(),
            "standalone": ('<?xml version="1.0" encoding="latin-1" standalone="yes"?>' + x).encode(), "version 1.1": ('<?xml version="1.1" encoding="UTF-8"?>' + x).encode(),
            "trailing space": e + b" \n\t\n ", "trailing text": e + b"\nabc", "quoted": b'"' + e + b'"'}[w]


@case
def odd_ways(p):
    """Whatever the bytes are: every way to read them gives the same tree, or is refused."""
    d, kvn = p["doc"], p["kvn"]
    raw = odd_bytes(R.kvn(d) if kvn else R.xml(d), p["odd"], kvn)
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError:
        text = None
    out = []
    with Scratch() as s:
        path = os.path.join(s, "m")
        with open(path, "wb") as fp:
            fp.write(raw)
        for name in ("NdmIo", "low"):
            got = {}
            for way, arg in (("from_path", path), ("from_path ", pathlib.Path(path)), ("from_bytes", raw), ("from_string", text)):
                io = O.io() if name == "NdmIo" else kvn_io() if kvn else xml_io()
                if arg is None or not hasattr(io, way.strip()):
                    continue
                try:
                    got[way] = M.canon(M.decompile(getattr(io, way.strip())(arg)))
                except Exception:  # noqa: refused
                    got[way] = "refused"
            if len(set(map(str, got.values()))) > 1:
                out.append("%s: %s" % (name, ", ".join("%s %s" % (a, "refused" if b == "refused" else "accepted") for a, b in got.items())))
            if text is None and set(got.values()) != {"refused"}:
                out.append("%s: bytes that are no text were accepted" % name)
    return out, str(len(set(map(str, got.values()))))


@prop("P14", "every reading and writing entry point x path kinds x file names x previous file contents, for the minimal and full "
             "documents of each type in both encodings, with characters outside ASCII; 30 odd forms of the bytes by every way to read them", ["files are on a local file system"])
def p14(run, th):
    def reads():
        for k in M.KINDS:
            for full in (0, 1):
                for kvn in (True, False):
                    d = rich(k, full)
                    d = O.kdoc(d) if kvn else d
                    for e in READERS:
                        if e == "low.from_bytes" and kvn:
                            continue
                        pn = [(PATHS[0], NAMES[0])]
                        if e.endswith("path"):
                            pn = list(itertools.product(PATHS, NAMES)) if th or not full else [(PATHS[i % 5], n) for i, n in enumerate(NAMES)]
                        for how, name in pn:
                            for crlf in (0, 1, 2, 3) if not full or name == NAMES[0] else (0, 1):
                                if crlf and not kvn and e.endswith(("string", "bytes")):
                                    continue  # same text model as P26
                                yield [k, full, kvn, e, how, name, crlf], {"doc": d, "kvn": kvn, "entry": e, "how": how, "name": name, "crlf": crlf}

    def writes():
        for k in M.KINDS:
            for full in (0, 1):
                for kvn in (True, False):
                    d = rich(k, full)
                    d = O.kdoc(d) if kvn else d
                    for e in ("NdmIo", "low"):
                        for b in BEFORE:
                            for how, name in (itertools.product(PATHS, NAMES) if th or (not full and b == "longer") else [(PATHS[i % 5], n) for i, n in enumerate(NAMES)]):
                                yield [k, full, kvn, e, b, how, name], {"doc": d, "kvn": kvn, "entry": e, "before": b, "how": how, "name": name}
    def large():
        # characters of several bytes at every alignment to the block sizes of input and output
        for k in ("opm", "oem"):
            for kvn in (True, False):
                for shift in range(0, 4):
                    for c in ("\u20ac", "\U0001d11e"):
                        d = M.fill(M.base(k))
                        d["header"]["comment"] = ["x" * shift + c * 70000]
                        d = O.kdoc(M.reorder(d))
                        for e in READERS:
                            if not (e == "low.from_bytes" and kvn):
                                yield ["large", k, kvn, shift, len(c.encode()), e], {"doc": d, "kvn": kvn, "entry": e, "how": "str", "name": "m"}
                        for e in ("NdmIo", "low"):
                            yield ["large", k, kvn, shift, len(c.encode()), "write " + e], {"doc": d, "kvn": kvn, "entry": e, "before": "absent", "how": "str", "name": "m", "write": 1}
    def odd():
        for k in M.KINDS:
            for full in (0, 1):
                for kvn in (True, False):
                    d = rich(k, full)
                    d = O.kdoc(d) if kvn else d
                    for w in ODD:
                        yield [k, full, kvn, w], {"doc": d, "kvn": kvn, "odd": w}
    run.explore("large texts", large(), entry_any)
    run.explore("odd forms of the bytes", odd(), odd_ways)
    run.explore("reading", reads(), entry_read)
    run.explore("writing", writes(), entry_write)


# ------------------------------------------------------------------ histories
def kvn_broken(k):
    t = R.kvn(O.kdoc(M.fill(M.base(k, True))))
    return {"cut": t[:len(t) * 2 // 3], "no body": "\n".join(t.split("\n")[:1]), "wrong id": t.replace("CCSDS_", "CCSDS_Q", 1)}


def make_ops():
    ops = {}
    for k in M.KINDS:
        for full in (0, 1):
            for v in ("kread", "xread", "kwrite", "xwrite"):
                ops["%s %s %s" % (v, k, "full" if full else "min")] = (v, k, full)
    for k in ("opm", "oem", "aem", "tdm"):
        for w in kvn_broken(k):
            ops["kread %s broken: %s" % (k, w)] = ("kbad", k, w)
    for w in ("cut", "alien", "not xml", "ndm alien"):
        ops["xread broken: " + w] = ("xbad", "opm", w)
    ops["xread ndm"] = ("ndmread", "opm", "oem")
    ops["xread ndm 2"] = ("ndmread", "opm", "opm")
    ops["xwrite ndm"] = ("ndmwrite", "opm", "oem")
    ops["kwrite ndm refused"] = ("ndmkvn", "opm", "oem")
    ops["kwrite poisoned"] = ("kpoison", "oem", "")
    ops["xwrite poisoned"] = ("xpoison", "oem", "")
    ops["json"] = ("json", "", "")
    return ops


OPS = make_ops()
ALTS = {}  # documents of the same type, size and header that differ from the minimal ones in a few places only
for _k in M.KINDS:
    for _v in ("kread", "xread", "kwrite", "xwrite"):
        for _a in ("last", "first", "kind"):
            ALTS["%s %s alt %s" % (_v, _k, _a)] = (_v, _k, _a)


def doc_of(k, w):
    """Document of an operation: minimal, full, or minimal with one value changed (of the same length)."""
    if w in (0, 1):
        return O.kdoc(M.fill(M.base(k, bool(w))))
    s = M.base(k)
    if w == "kind":
        if k == "aem":
            M.set_attitude(s["body"]["segment"][0], "EULER_ANGLE/RATE", "LAST", "312")
        if k == "tdm":
            s["body"]["segment"][0]["data"]["observation"] = [M.observation("doppler_integrated")]
        if k == "omm":
            e = s["body"]["segment"]["data"]["mean_elements"]
            e.pop("mean_motion" if "mean_motion" in e else "semi_major_axis")
            M.put(e, M.FIELDS[e["_c"]]["semi_major_axis"])
            s = M.reorder(s)
    d = O.kdoc(M.fill(s))
    vs = [(p, f) for p, f in X.slots(d) if f["type"] == "decimal" or (f["attr"] == "object_name")]
    p, f = vs[-1 if w == "last" or not any(f["attr"] == "object_name" for _, f in vs) else 0]
    v = M.get(d, p)
    M.get(d, p[:-1])[p[-1]] = v[:-1] + ("6" if v[-1] != "6" else "7")
    return d


class Poison(Exception):
    pass


class Bad:
    """A value that cannot be written."""
    kind = Poison

    def _no(self, *a, **k):
        raise self.kind("poisoned value")
    __str__ = __repr__ = __format__ = _no


def run_op(op, ios):
    v, k, w = op
    kio, xio, nio = ios()
    if v in ("kread", "xread", "kwrite", "xwrite"):
        d = doc_of(k, w)
        # the trees are changed in place when they are done with, none of it may reach a later operation
        if v in ("kread", "xread"):
            o = kio.from_string(R.kvn(d)) if v == "kread" else xio.from_string(R.xml(d))
            r = O.kcmp(o, d) if v == "kread" else M.compare(o, d)
            scramble(o)
            return r
        o = M.build(d)
        if v == "kwrite":
            r = R.line_diff(R.tokenize(kio.to_string(o), k), R.content_lines(d))
        else:
            r = O.info_diff(O.infoset(xio.to_string(o)), O.infoset(R.xml(d)))
        scramble(o)
        return [r] if r else []
    if v == "kbad":
        try:
            kio.from_string(kvn_broken(k)[w])
        except Exception:  # noqa: whether a broken text is refused is not judged here
            pass
        return []
    if v == "xbad":
        x = R.xml(M.fill(M.base("opm", True)))
        bad = {"cut": x[:len(x) // 2], "alien": x.replace("<body>", "<foo/><body>"), "not xml": "abc",
               "ndm alien": ndm_xml({"messages": fillm([M.base("opm"), M.base("oem")])}).replace("<body>", "<foo/><body>")}[w]
        try:
            xio.from_string(bad)
        except Exception:  # noqa
            return []
        return ["accepted"]
    p = {"message_id": "m", "comment": ["c"], "messages": fillm([M.base(k), M.base(w)])} if v.startswith("ndm") else None
    if v == "ndmread":
        o = xio.from_string(ndm_xml(p))
        r = check_ndm(o, p)
        scramble(o)
        return r
    if v == "ndmwrite":
        return check_ndm(nio.from_string(nio.to_string(build_ndm(p), O.fmt("XML"))), p)
    if v == "ndmkvn":
        try:
            kio.to_string(build_ndm(p))
        except NotImplementedError:
            return []
        return ["not refused"]
    if v in ("kpoison", "xpoison"):
        o = M.build(M.fill(M.base("oem")))
        o.body.segment[0].metadata.object_name = Bad()
        try:
            (kio if v == "kpoison" else xio).to_string(o)
        except Exception:  # noqa
            pass
        return []
    if v == "json":
        try:
            nio.from_string("[]")
        except NotImplementedError:
            return []
        return ["json accepted"]
    raise engine.HarnessError(v)


def forked(fn):
    """Run fn() in a child process (a fresh copy of this one) and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = fn()
            except BaseException as e:  # noqa
                res = ["raised %s" % engine.describe(e)]
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else ["the process died"]


def histories(seq, mode):
    made = []

    def ios():
        if mode == "shared" and made:
            return made[0]
        nio = O.io()
        x = (nio, nio, nio) if mode == "x" else (kvn_io(), xml_io(), nio)
        made.append(x)
        return x
    out = []
    process = ambient()
    for i, name in enumerate(seq):
        try:
            r = run_op(OPS.get(name) or ALTS[name], ios)
        except Exception as e:  # noqa
            r = ["raised %s" % engine.describe(e)]
        out += ["step %d (%s): %s" % (i + 1, name, x) for x in r + ambient_diff(process)]
    return out


def de_bruijn(ops, n):
    """Shortest sequence that has every sequence of n operations as a part of it."""
    k = len(ops)
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    seq += seq[:n - 1]
    return [ops[i] for i in seq]


@case
def history(p):
    return forked(lambda: histories(p["seq"], p["mode"])[:6])


# files: the state of the model is the content of one file
FILE_OPS = ["put KA", "put KB", "put XA", "put XB", "remove", "read", "low read", "write KA", "write KB", "low write XA", "low write XB"]
ORIGIN = 1600000000


def file_docs(k):
    a, b = O.kdoc(M.fill(M.base(k))), doc_of(k, "last")
    return {"KA": (a, 1), "KB": (b, 1), "XA": (a, 0), "XB": (b, 0)}


def file_gen(depth):
    def useful(seq):
        return any("read" in x for x in seq) and sum(1 for x in seq if "read" not in x)
    for k in ("opm", "aem"):
        for n in range(1, depth + 1 if k == "opm" else depth):
            for seq in itertools.product(FILE_OPS, repeat=n):
                if useful(seq) and not (n > 3 and "read" not in seq[-1]):
                    for keep in (0, 1):
                        yield [k, "same time stamp" if keep else "now"] + list(seq), {"kind": k, "seq": list(seq), "keep": keep}


@case
def file_history(p):
    """A file is written and read in turn; every read gives what the file holds at this time."""
    docs = file_docs(p["kind"])
    state, out = None, []
    nio, low = O.io(), {1: kvn_io(), 0: xml_io()}
    with Scratch() as s:
        path = os.path.join(s, "message")
        for i, op in enumerate(p["seq"]):
            verb, _, w = op.rpartition(" ")
            at = "step %d (%s): " % (i + 1, op)
            if op == "remove":
                if state:
                    os.remove(path)
                state = None
            elif verb == "put":
                d, kvn = docs[w]
                with open(path, "w", encoding="utf-8") as f:
                    f.write(R.kvn(d) if kvn else R.xml(d))
                state = w
            elif verb.endswith("write"):
                d, kvn = docs[w]
                if verb == "write":
                    nio.to_file(M.build(d), O.fmt("KVN" if kvn else "XML"), path)
                else:
                    low[kvn].to_file(M.build(d), path)
                state = w
            else:
                d, kvn = docs[state] if state else (None, 0)
                try:
                    o = (nio if op == "read" else low[kvn]).from_path(path)
                    out += [at + "object of a missing file"] if not state else [at + x for x in cmp(kvn, o, d)]
                    scramble(o)
                except OSError as e:
                    out += [at + engine.describe(e)] if state else []
            if p["keep"] and state:
                os.utime(path, (ORIGIN, ORIGIN))
    return out[:6], state


# two long messages that differ in one place only
WAYS = ["string", "low string", "bytes", "path", "rewritten path", "write", "low write"]


def long_shape(k):
    """A full message made longer: many lines, parameters, or comments."""
    s = M.base(k, True)
    found = False
    for p, n in list(M.walk(s)):
        for f in M.doc_fields(n["_c"]):
            if f["list"] and f["attr"] != "comment" and M.is_class(f) and f["attr"] in n and M.tname(f) in LONG and not any(isinstance(x, int) and x > 0 for x in p):
                M.get(s, p)[f["attr"]] = [M.clone(n[f["attr"]][0]) for _ in range(24)]
                found = True
    if not found:
        s["header"]["comment"] = [None] * 25
    return s


LONG = ("StateVectorAccType", "AttitudeStateType", "aemData", "TrackingDataObservationType", "UserDefinedParameterType", "AttitudeType")


def sibling(d, p, f):
    """The message with one value replaced by another one of the same length."""
    e = M.clone(d)
    v = str(M.get(e, p))
    c = v[-1]
    M.get(e, p[:-1])[p[-1]] = v[:-1] + (str((int(c) + 1) % 9 + 1) if c.isdigit() else "w" if c == "v" else "v")
    return e


def neighbour_run(k, kvn, way, lo, hi):
    d = M.fill(long_shape(k))
    d = O.kdoc(d) if kvn else d
    ps = list(X.slots(d))[lo:hi]
    nio, low = O.io(), kvn_io() if kvn else xml_io()
    f = O.fmt("KVN" if kvn else "XML")
    out = []
    with Scratch() as s:
        for j, (p, g) in enumerate(ps):
            if g["type"] == "decimal" and not X.in_range(g, str(M.get(sibling(d, p, g), p))):
                continue
            for name, e in (("first", d), ("changed at " + "/".join(map(str, p)), sibling(d, p, g))):
                t = R.kvn(e) if kvn else R.xml(e)
                if way.endswith("write"):
                    o = M.build(e)
                    t = low.to_string(o) if way == "low write" else nio.to_string(o, f)
                    r = R.line_diff(R.tokenize(t, k), R.content_lines(e)) if kvn else O.info_diff(O.infoset(t), O.infoset(R.xml(e)))
                    r = [r] if r else []
                else:
                    path = os.path.join(s, "m" if way == "rewritten path" else "m%d%s" % (j, name[:1]))
                    if "path" in way:
                        with open(path, "w", encoding="utf-8") as fp:
                            fp.write(t)
                        os.utime(path, (ORIGIN, ORIGIN))
                    o = nio.from_string(t) if way == "string" else low.from_string(t) if way == "low string" else nio.from_bytes(t.encode("utf-8")) if way == "bytes" \
                        else nio.from_path(path)
                    r = cmp(kvn, o, e)
                scramble(o)
                out += ["%s: %s" % (name, x) for x in r]
    return out[:5]


@case
def neighbours(p):
    return forked(lambda: neighbour_run(p["kind"], p["kvn"], p["way"], p["from"], p["to"]))


def neighbour_gen(th):
    for k in M.KINDS:
        for kvn in (1, 0):
            d = M.fill(long_shape(k))
            n = len(list(X.slots(O.kdoc(d) if kvn else d)))
            for way in WAYS if th else ("string", "rewritten path", "write"):
                for i in range(0, n, 40):
                    yield [k, "KVN" if kvn else "XML", way, i], {"kind": k, "kvn": kvn, "way": way, "from": i, "to": i + 40}


@prop("P15", "all sequences of 2 operations over {} (reads, writes and failures of every type), with shared and with new reader and "
             "writer instances; all sequences of 2 over {} reads and writes of similar messages; all sequences of 3 over 14 (thorough: 22) "
             "operations; each in its own process; all sequences of at most 4 (thorough 5) of 11 operations on one file; "
             "every pair of long messages that differ in one value, one after the other; all pairs (thorough: triples) of operations in one long history, and each operation 200 times".format(len(OPS), len(ALTS)))
def p15(run, th):
    names = list(OPS)
    few = ["kread opm full", "kread oem full", "kread aem min", "kread tdm full", "kread cdm min", "kwrite aem full", "kwrite oem min", "xread omm full",
           "xread ndm", "xwrite rdm full", "kread oem broken: cut", "xread broken: ndm alien", "kwrite poisoned", "kread opm min"]
    if th:
        few += ["kread apm full", "kread rdm min", "kwrite tdm full", "kwrite omm full", "xwrite aem min", "kread tdm broken: no body", "xwrite ndm", "json"]

    def gen():
        for mode in ("shared", "new"):
            for n in names:
                yield [mode, n], {"seq": [n], "mode": mode}
            for a, b in itertools.product(names, names):
                yield [mode, a, b], {"seq": [a, b], "mode": mode}
            for t in itertools.product(few, repeat=3):
                if mode == "shared" or th:
                    yield [mode] + list(t), {"seq": list(t), "mode": mode}
            for k in M.KINDS:
                # similar messages one after the other
                same = [n for n in list(OPS) + list(ALTS) if n.split()[1:2] == [k] and "broken" not in n]
                for a, b in itertools.product(same, same):
                    if a in ALTS or b in ALTS:
                        yield [mode, a, b], {"seq": [a, b], "mode": mode}
    def long():
        """Every pair (thorough: triple) of operations, within one long history of one process."""
        for mode in ("shared", "new"):
            for group in [few] + [[n for n in names if n.split()[1:2] == [k]] for k in M.KINDS] + [[n for n in names if n.split()[0] == v] for v in ("kread", "xread", "kwrite", "xwrite")]:
                order = 3 if th and len(group) < 20 else 2
                yield [mode, "all of %d, order %d" % (len(group), order)] + group[:1], {"seq": de_bruijn(group, order), "mode": mode}
            for n in names:
                yield [mode, "200 times", n], {"seq": [n] * 200, "mode": mode}
    run.explore("histories", gen(), history)
    run.explore("long histories", long(), history)
    run.explore("long messages that differ in one place", neighbour_gen(th), neighbours)
    run.explore("file histories", file_gen(5 if th else 4), file_history)
    run.notes["operations"] = len(OPS)


# ------------------------------------------------------------------ side effects
def nodes(o, seen=None):
    """ids of every mutable node (object or list) of a tree."""
    seen = {} if seen is None else seen
    if isinstance(o, list):
        seen[id(o)] = o
        for x in o:
            nodes(x, seen)
    elif hasattr(o, "__dict__") and not isinstance(o, (Enum, type)):
        seen[id(o)] = o
        for x in vars(o).values():
            nodes(x, seen)
    return seen


def shallow(o):
    """Every node with the identities of its parts (no value is touched)."""
    return {i: [id(x) for x in n] if isinstance(n, list) else [(k, id(x)) for k, x in vars(n).items()] for i, n in nodes(o).items()}


def snapshot(o):
    return M.canon(M.decompile(o)) if type(o).__name__ != "Ndm" else repr(o)


def ambient():
    """State of the process that belongs to the user."""
    return {"decimal context": repr(decimal.getcontext()), "working directory": os.getcwd(), "environment": dict(os.environ),
            "locale": locale.setlocale(locale.LC_ALL), "warning filters": list(warnings.filters), "recursion limit": sys.getrecursionlimit(),
            "search path": list(sys.path), "threads": threading.active_count(), "collector": gc.isenabled(), "open files": len(os.listdir("/proc/self/fd")),
            "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)], "signal handler": repr(signal.getsignal(signal.SIGINT)),
            "switch interval": sys.getswitchinterval(), "logging": (logging.getLogger().level, logging.root.manager.disable), "trace": [sys.gettrace(), sys.getprofile()]}


def ambient_diff(a):
    b = ambient()
    return ["the %s of the process changed" % k for k in a if a[k] != b[k]]


@case
def purity(p):
    d, kvn = p["doc"], p["kvn"]
    f = O.fmt("KVN" if kvn else "XML")
    text = R.kvn(d) if kvn else R.xml(d)
    out = []
    process = ambient()
    # writing changes nothing and repeats itself
    o = M.build(d)
    s0, r0, ids = snapshot(o), repr(o), set(nodes(o))
    io = O.io()
    t1 = io.to_string(o, f)
    with Scratch() as s:
        io.to_file(o, f, os.path.join(s, "x"))
    t2 = O.io().to_string(o, f)
    if t1 != t2:
        out.append("writing the same tree twice gives different texts")
    if snapshot(o) != s0 or repr(o) != r0 or set(nodes(o)) != ids:
        out.append("writing changed the object tree")
    # reading twice gives separate trees
    low = kvn_io() if kvn else xml_io()
    trees = [io.from_string(text), io.from_string(text), low.from_string(text), low.from_string(text)]
    maps = [nodes(x) for x in trees]
    for i, j in itertools.combinations(range(4), 2):
        both = set(maps[i]) & set(maps[j])
        if both:
            out.append("trees %d and %d share %r" % (i, j, [type(maps[i][k]).__name__ for k in both][:3]))
    scramble(trees[0])
    scramble(trees[2])
    for t in (trees[1], trees[3], io.from_string(text), low.from_string(text), O.io().from_string(text)):
        out += cmp(kvn, t, d)
    if O.io().to_string(o, f) != t1:
        out.append("changing another tree changed the output of this one")
    out += ambient_diff(process)
    return out[:6]


def scramble(o, depth=0):
    """Change everything in a tree, in place."""
    if isinstance(o, list):
        for x in o:
            if hasattr(x, "__dict__"):
                scramble(x)
        o.append("X")
        o.reverse()
        return
    for k, v in list(vars(o).items()):
        if isinstance(v, list) or (hasattr(v, "__dict__") and not isinstance(v, Enum)):
            scramble(v)
        else:
            try:
                setattr(o, k, "X")
            except Exception:  # noqa: read-only attribute
                pass


@case
def rewrite(p):
    """Write a tree, change one value in place, write again with the same writer."""
    d, e, kvn = p["doc"], p["next"], p["kvn"]
    k = R.KIND_OF_CLASS[d["_c"]]
    f = O.fmt("KVN" if kvn else "XML")
    io = O.io()
    low = kvn_io() if kvn else xml_io()
    o = M.build(d)
    io.to_string(o, f)
    low.to_string(o)
    patch(o, M.build(e))
    out = []
    for t in (io.to_string(o, f), low.to_string(o)):
        r = R.line_diff(R.tokenize(t, k), R.content_lines(e)) if kvn else O.info_diff(O.infoset(t), O.infoset(R.xml(e)))
        if r:
            out.append(r)
    return out


def patch(o, w):
    """Make tree o equal to w in place, changing as few nodes as possible."""
    for k, v in vars(w).items():
        c = getattr(o, k)
        if c == v:
            continue
        if isinstance(v, list) and isinstance(c, list):
            if len(v) == len(c):
                for i in range(len(v)):
                    if c[i] != v[i]:
                        if hasattr(v[i], "__dict__") and type(c[i]) is type(v[i]) and not isinstance(v[i], Enum):
                            patch(c[i], v[i])
                        else:
                            c[i] = v[i]
            else:
                c[:] = v
        elif hasattr(v, "__dict__") and type(c) is type(v) and not isinstance(v, Enum):
            patch(c, v)
        else:
            setattr(o, k, v)


@case
def failed_purity(p):
    """A write that fails does not touch the tree either, nor does it affect the next one."""
    d, kvn = p["doc"], p["kvn"]
    f = O.fmt("KVN" if kvn else "XML")
    out = []
    o = M.build(d)
    io = O.io()
    want = io.to_string(o, f)
    for path in p["paths"]:
        n = o
        for a in path[:-1]:
            n = n[a] if isinstance(a, int) else getattr(n, a)
        a = path[-1]
        old = n[a] if isinstance(a, int) else getattr(n, a)

        def put(v):
            if isinstance(a, int):
                n[a] = v
            else:
                setattr(n, a, v)
        put(Bad())
        keep, tree, process = nodes(o), shallow(o), ambient()
        try:
            (io.to_string(o, f) if p["entry"] else (kvn_io() if kvn else xml_io()).to_string(o))
        except Exception:  # noqa: expected
            pass
        if shallow(o) != tree:
            out.append("failed write (%s) changed the object tree" % "/".join(map(str, path)))
        out += ambient_diff(process)
        put(old)
        if io.to_string(o, f) != want:
            out.append("failed write (%s) changed the next one" % "/".join(map(str, path)))
        if out:
            break
    return out[:6]


@case
def fresh_defaults(p):
    """Two new objects of a class do not share their default lists."""
    cls = getattr(M.models(), p["cls"])
    a, b = cls(), cls()
    out = []
    for k, v in vars(a).items():
        if isinstance(v, list):
            v.append("X")
            if getattr(b, k) != [] or getattr(cls(), k) != []:
                out.append("%s.%s is shared between objects" % (p["cls"], k))
    return out


@prop("P16", "all documents within 1 edit of the minimal, full and multi-segment ones of each type in both encodings: two writes, four reads, full in-place change of two of "
             "the trees; every single edit of the minimal (thorough: and full) documents made in place between two writes; a write that fails at each value slot of the minimal, full and multi-segment documents; every class of the object model")
def p16(run, th):
    from .checks_doc import bases

    def docs():
        for k in M.KINDS:
            for h, b in X.bfs(bases(k) if th else X.bases(k)[:1] if k == "cdm" else bases(k), 1,
                              None if th else {"aemtype", "obs", "list", "choice", "field"}):
                if not M.has_empty_block(b):
                    for kvn in (True, False):
                        yield h + [kvn], {"doc": O.kdoc(M.fill(b)), "kvn": kvn}

    def edits():
        for k in M.KINDS:
            for n, b in X.bases(k)[:2 if th else 1]:
                d = O.kdoc(M.fill(b))
                for fam, lab, s in X.edits(b):
                    if M.has_empty_block(s):
                        continue
                    for kvn in (True, False):
                        yield [n, lab, kvn], {"doc": d, "next": O.kdoc(M.fill(s)), "kvn": kvn}
            d = O.kdoc(M.fill(M.base(k, True)))
            for p, f in X.slots(d):
                v = {"decimal": "0.5", "int": "3"}.get(f["type"], "2020-01-01T00:00:00" if M.is_epoch(f) else "CHANGED")
                if f["type"] == "decimal" and not X.in_range(f, v):
                    v = "-0.5"
                e = M.clone(d)
                M.get(e, p[:-1])[p[-1]] = v
                for kvn in (True, False):
                    yield [k, "full", "/".join(map(str, p)), kvn], {"doc": d, "next": e, "kvn": kvn}
    run.explore("side effects", docs(), purity)
    run.explore("change and write again", edits(), rewrite)

    def failing():
        for k in M.KINDS:
            for n, b in X.bases(k):
                d = O.kdoc(M.fill(b))
                ps = [list(p) for p, f in X.slots(d)]
                for kvn in (True, False):
                    for e in (0, 1):
                        for i in range(0, len(ps), 12):
                            yield [n, kvn, e, i], {"doc": d, "kvn": kvn, "entry": e, "paths": ps[i:i + 12]}
    run.explore("failed writes", failing(), failed_purity)
    run.explore("defaults", ([c, {"cls": c}] for c in sorted(M.CLASSES)), fresh_defaults)


# ------------------------------------------------------------------ object trees as values
def copies(o):
    yield "copy", copy.copy(o), False
    yield "deepcopy", copy.deepcopy(o), True
    for n in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle %d" % n, pickle.loads(pickle.dumps(o, n)), True


def same_value(o, p, name):
    out = []
    if not (o == p and p == o):
        out.append(name + ": not equal")
    if o != p or p != o:
        out.append(name + ": unequal")
    if type(o) is not type(p) or repr(o) != repr(p):
        out.append(name + ": type or text form differs")
    return out


@case
def plain_value(p):
    """Equality and copies of a tree, built by hand and read."""
    d = p["doc"]
    out = []
    a, b = M.build(d), M.build(d)
    out += same_value(a, b, "built twice")
    x, k = R.xml(d), R.kvn(O.kdoc(d))
    r = O.io().from_string(x)
    out += same_value(a, r, "built and read from XML")
    out += same_value(r, xml_io().from_string(x), "read twice from XML")
    v = O.io().from_string(k) if not p.get("xml") else a
    if p.get("xml"):
        return out + plain_copies((("built", a), ("from XML", r)), ["XML"])
    out += same_value(v, kvn_io().from_string(k), "read twice from KVN")
    out += same_value(v, O.io().from_string(O.io().to_string(v, O.fmt("XML"))), "read from KVN and converted to XML")
    return out + plain_copies((("built", a), ("from XML", r), ("from KVN", v)), ["KVN", "XML"])


def plain_copies(trees, formats):
    out = []
    for name, o in trees:
        texts = [O.io().to_string(o, O.fmt(f)) for f in formats]
        own = set(nodes(o))
        for how, c, deep in copies(o):
            out += same_value(o, c, name + ", " + how)
            if deep and own & set(nodes(c)):
                out.append("%s, %s: shares parts" % (name, how))
            if how in ("copy", "deepcopy", "pickle 4") and [O.io().to_string(c, O.fmt(f)) for f in formats] != texts:
                out.append("%s, %s: written differently" % (name, how))
    return out[:6]


@case
def plain_ndm(p):
    o = build_ndm(p)
    out = same_value(o, build_ndm(p), "built twice")
    x = ndm_xml(p)
    r = O.io().from_string(x)
    out += same_value(r, O.io().from_string(x), "read twice")
    for name, o in (("built", o), ("read", r)):
        t = O.io().to_string(o, O.fmt("XML"))
        for how, c, deep in copies(o):
            out += same_value(o, c, name + ", " + how)
            if O.io().to_string(c, O.fmt("XML")) != t:
                out.append("%s, %s: written differently" % (name, how))
    return out[:6]


@case
def differs(p):
    """Trees of different contents are not equal."""
    a, b = M.build(p["doc"]), M.build(p["next"])
    out = []
    if a == b or not a != b:
        out.append("built trees with different contents are equal")
    x, y = O.io().from_string(R.xml(p["doc"])), O.io().from_string(R.xml(p["next"]))
    if x == y or not x != y or x == b:
        out.append("trees read with different contents are equal")
    return out


@prop("P29", "all documents within 1 edit of the minimal, full and multi-segment ones of each type: equality, copy, deepcopy and pickle in every protocol, built and read; the same with empty texts, zeros and equal contents, at each place and everywhere; "
             "every value slot changed and every single edit: inequality; all combined messages of at most 2 (thorough 3) messages")
def p29(run, th):
    from .checks_doc import bases

    def docs():
        for k in M.KINDS:
            for h, b in X.bfs(bases(k) if th or k != "cdm" else X.bases(k)[:1], 1, None if th else {"aemtype", "obs", "list", "choice", "field"}):
                if not M.has_empty_block(b):
                    yield h, {"doc": M.fill(b)}

    def plain_contents():
        # empty, zero and equal contents, at each place and everywhere
        for k in M.KINDS:
            for n, b in X.bases(k):
                d0 = M.fill(b)
                for name in ("zero", "same", "odd"):
                    yield [n, name], {"doc": M.fill(b, M.Odd(1) if name == "odd" else M.FILLS[name]()), "xml": 1}
                ps = [(q, f) for q, f in X.slots(d0) if f["type"] == "decimal" or f["type"] == "str" and not M.is_enum(f)]
                # an empty user-defined value is None or an empty text in the tree
                ps = [(q, f) for q, f in ps if "user_defined" not in q or q[-1] != "value"]
                for sel in [[q] for q in ps] + [ps]:
                    d = M.clone(d0)
                    for q, f in sel:
                        if f["type"] == "str" or X.in_range(f, "0"):
                            M.get(d, q[:-1])[q[-1]] = "" if f["type"] == "str" else "0"
                    yield [n, "everywhere" if len(sel) > 1 else "/".join(map(str, sel[0][0]))], {"doc": d, "xml": 1}

    def pairs():
        for k in M.KINDS:
            for n, b in X.bases(k):
                d = M.fill(b)
                for fam, lab, s in X.edits(d):
                    if th or not n.startswith("cdm") or n.endswith("min"):
                        e = M.fill(s)
                        if M.canon(e) != M.canon(d):
                            yield [n, lab], {"doc": d, "next": e}
                for p, f in X.slots(d):
                    if M.is_enum(f):
                        continue
                    v = {"decimal": "0.5", "int": "3"}.get(f["type"], "2020-01-01T00:00:00" if M.is_epoch(f) else "CHANGED")
                    if f["type"] == "decimal" and not X.in_range(f, v):
                        v = "-0.5"
                    e = M.clone(d)
                    M.get(e, p[:-1])[p[-1]] = v
                    yield [n, "/".join(map(str, p))], {"doc": d, "next": e}

    def combined():
        for n in range(0, 4 if th else 3):
            for seq in itertools.product(M.KINDS, repeat=n):
                for head in ({}, {"message_id": "m", "comment": ["c"]}):
                    yield list(seq) + [len(head)], dict(head, messages=fillm([M.base(k) for k in seq]))
    run.explore("equality and copies", docs(), plain_value)
    run.explore("empty, zero and equal contents", plain_contents(), plain_value)
    run.explore("inequality", pairs(), differs)
    run.explore("combined messages", combined(), plain_ndm)


# ------------------------------------------------------------------ failed writes
class BadInterrupt(Bad):
    kind = KeyboardInterrupt


@case
def failed_write(p):
    kvn = p["kvn"]
    f = O.fmt("KVN" if kvn else "XML")
    if p["what"] == "slot":
        good = M.build(p["doc"])
        o = M.build(p["doc"])
        n = o
        for a in p["path"][:-1]:
            n = n[a] if isinstance(a, int) else getattr(n, a)
        bad = (Bad(), BadInterrupt(), "A\ud800 B", "A\x01B")[p["interrupt"]]
        if isinstance(p["path"][-1], int):
            n[p["path"][-1]] = bad
        else:
            setattr(n, p["path"][-1], bad)
    elif p["what"] == "ndm":
        o = build_ndm(p["ndm"])
        good = M.build(p["ndm"]["messages"][0]) if p["ndm"]["messages"] else M.build(M.fill(M.base("opm")))
    else:
        o = {"none": None, "text": "abc", "number": 5, "list": [], "json": None}[p["what"]]
        good = M.build(M.fill(M.base("opm")))
        if p["what"] == "json":
            o = good
    if p["what"] == "json":
        f = O.fmt("JSON")
    with Scratch() as s:
        path = os.path.join(s, "target") if p["prior"] != "no folder" else os.path.join(s, "folder", "sub", "target")
        old = b"previous content\n" * 50
        if p["prior"] == 1:
            with open(path, "wb") as fp:
                fp.write(old)
        raised = None
        keep, tree = nodes(o), shallow(o)
        try:
            if p["entry"] == "NdmIo":
                O.io().to_file(o, f, path)
            else:
                (kvn_io() if kvn else xml_io()).to_file(o, path)
        except (Exception, KeyboardInterrupt) as e:  # noqa
            raised = type(e).__name__
        now = open(path, "rb").read() if os.path.exists(path) else None
        files = sorted(os.listdir(s))
        out = []
        if p["prior"] == "no folder":
            if raised is None and files:
                return [], "written without the value"
            return (["refused write left files %r" % files] if files else []) + (["not refused"] if raised is None else []), "refused"
        if raised is None:
            if p["what"] != "slot":
                return ["a write that cannot succeed was not refused"], "not refused"
            if p["interrupt"] >= 2:
                return ["a text that the format cannot hold was written"], "not refused"
            # the value was not needed: a complete file must have been written
            if now is None or now == old:
                out.append("nothing written and nothing raised")
            return out, "written without the value"
        if now != (old if p["prior"] else None):
            out.append("refused write (%s) left the target %s" % (raised, "changed: %r" % (now or b"")[:60] if p["prior"] else "created"))
        if shallow(o) != tree:
            out.append("refused write changed the object tree")
        if files != (["target"] if p["prior"] else []):
            out.append("refused write left files %r" % files)
        # the writer is still usable and now writes all of it
        if not out:
            g = O.fmt("KVN" if kvn else "XML")
            O.io().to_file(good, g, path)
            if open(path, "rb").read() != O.io().to_string(good, g).encode("utf-8"):
                out.append("write after the failure is incomplete")
        return out, "refused: " + raised


ACC = ("x_ddot", "y_ddot", "z_ddot")


def incomplete():
    """State vectors with some of the accelerations, at each line of several (XML has them, the columns of KVN do not)."""
    for full in (0, 1):
        for lines in (1, 3):
            for at in range(lines):
                for n in (1, 2):
                    for keep in itertools.combinations(ACC, n):
                        s = M.base("oem", bool(full))
                        data = s["body"]["segment"][-1]["data"]
                        v = data["state_vector"][0]
                        data["state_vector"] = [M.clone(v) for _ in range(lines)]
                        sv = data["state_vector"][at]
                        for a in ACC:
                            sv.pop(a, None)
                            if a in keep:
                                M.put(sv, M.FIELDS[sv["_c"]][a])
                        d = M.fill(M.reorder(s))
                        for prior in (0, 1):
                            yield [full, lines, at, list(keep), prior], {"doc": d, "prior": prior, "leading": keep == ACC[:n]}


def incomplete_matrices(th):
    """Covariance matrices without some of the elements, at each of several."""
    full = M.base("oem", True)["body"]["segment"][-1]["data"]["covariance_matrix"][0]
    names = [k for k, v in full.items() if isinstance(v, dict) and "value" in v]
    for count in (1, 3):
        for at in range(count):
            for gone in [(n,) for n in names] + (list(itertools.combinations(names, 2)) if th or (count, at) == (1, 0) else []) + [tuple(names[-6:]), tuple(names)]:
                s = M.base("oem", True)
                data = s["body"]["segment"][-1]["data"]
                data["covariance_matrix"] = [M.clone(full) for _ in range(count)]
                for n in gone:
                    data["covariance_matrix"][at].pop(n)
                yield [count, at, list(gone)], {"doc": M.fill(s), "prior": (at + len(gone)) % 2, "leading": False}


@case
def columns_refused(p):
    out = O.xml_both({"doc": p["doc"]})
    o = M.build(p["doc"])
    low = kvn_io()
    if p["leading"]:
        # the values are at their columns, whether they are written or refused
        try:
            t = O.io().to_string(o, O.fmt("KVN"))
        except Exception:  # noqa
            return out, "refused"
        return out + O.kcmp(O.io().from_string(t), O.kdoc(p["doc"])), "leading columns written"
    with Scratch() as s:
        path = os.path.join(s, "target")
        if p["prior"]:
            with open(path, "w") as f:
                f.write("previous")
        for name, fn in (("to_string", lambda: O.io().to_string(o, O.fmt("KVN"))), ("low to_string", lambda: low.to_string(o)),
                         ("to_file", lambda: O.io().to_file(o, O.fmt("KVN"), path)), ("low to_file", lambda: low.to_file(o, path))):
            try:
                t = fn()
            except Exception:  # noqa
                continue
            out.append("%s accepted: %r" % (name, t and t[-200:]))
        if os.listdir(s) != (["target"] if p["prior"] else []) or p["prior"] and open(path).read() != "previous":
            out.append("refused write changed the file")
    return out, "refused"


@prop("P17", "an unwritable value (ordinary failure, interrupt, text that cannot be encoded) at each value slot of the minimal and full documents of each type, state vectors with some of the accelerations, covariance matrices without one or two elements; combined messages of "
             "0, 2 and 3 messages to KVN, JSON and objects that are no message; target existing, not existing, and in a folder that does not exist; both entry points",
      ["faults are injected while the text is produced; failures of the disk itself are outside the bound"])
def p17(run, th):
    def gen():
        for k in M.KINDS:
            for n, b in X.bases(k):
                for kvn in (True, False):
                    d = O.kdoc(M.fill(b))
                    for i, (p, f) in enumerate(X.slots(d)):
                        for intr in ((0, 1) if th or not n.startswith("cdm") else (i % 2,)) + ((2,) if f["type"] == "str" else ()) + ((3,) if f["type"] == "str" and not kvn else ()):
                            yield [n, kvn, "/".join(map(str, p)), intr], {"doc": d, "kvn": kvn, "what": "slot", "path": list(p), "interrupt": intr,
                                                                          "prior": int((i + intr) % 3 != 0), "entry": "NdmIo" if i % 2 else "low"}
                            if th or i % 5 == intr:
                                yield [n, kvn, "/".join(map(str, p)), intr, "no folder"], {"doc": d, "kvn": kvn, "what": "slot", "path": list(p), "interrupt": intr,
                                                                                           "prior": "no folder", "entry": "NdmIo" if (i // 5) % 2 else "low"}
        for kvn in (True, False):
            for e in ("NdmIo", "low"):
                for prior in (0, 1, "no folder"):
                    for w in ("none", "text", "number", "list"):
                        yield [w, kvn, e, prior], {"what": w, "kvn": kvn, "entry": e, "prior": prior}
                    if e == "NdmIo":
                        yield ["json", kvn, prior], {"what": "json", "kvn": kvn, "entry": e, "prior": prior}
                    if kvn:
                        for seq in [()] + list(itertools.product(M.KINDS, repeat=2)) + [("opm",) * 3, ("aem", "oem", "tdm")]:
                            ps = {"message_id": "m", "comment": ["c"], "messages": fillm([M.base(x) for x in seq])}
                            yield ["ndm"] + list(seq) + [e, prior], {"what": "ndm", "kvn": True, "ndm": ps, "entry": e, "prior": prior}
    run.explore("failed writes", gen(), failed_write)
    run.explore("incomplete columns", incomplete(), columns_refused)
    run.explore("incomplete matrices", incomplete_matrices(th), columns_refused)


# ------------------------------------------------------------------ schema locations
LOCS = {"none": {}, "sl": {"schema_location": "urn:a http://x/a.xsd"}, "nn": {"no_namespace_schema_location": "http://y/b.xsd"},
        "both": {"schema_location": "urn:c c.xsd", "no_namespace_schema_location": "d.xsd"},
        "nn2": {"no_namespace_schema_location": "e & f.xsd"}}
XSI_NS = "{http://www.w3.org/2001/XMLSchema-instance}"


@case
def locations(p):
    out = []
    d = p["doc"]
    o = M.build(d)
    io, low = O.io(), xml_io()
    with Scratch() as s:
        for i, name in enumerate(p["seq"]):
            kw = LOCS[name]
            texts = {"NdmIo": io.to_string(o, O.fmt("XML"), **kw), "NdmXmlIo": low.to_string(o, **kw)}
            f = os.path.join(s, "f")
            io.to_file(o, O.fmt("XML"), f, **kw)
            texts["NdmIo file"] = open(f, encoding="utf-8").read()
            low.to_file(o, f, **kw)
            texts["NdmXmlIo file"] = open(f, encoding="utf-8").read()
            want = O.infoset(R.xml(d))
            extra = []
            if "schema_location" in kw:
                extra.append((XSI_NS + "schemaLocation", kw["schema_location"]))
            if "no_namespace_schema_location" in kw:
                extra.append((XSI_NS + "noNamespaceSchemaLocation", kw["no_namespace_schema_location"]))
            want[1] = sorted(want[1] + extra)
            for n, t in texts.items():
                r = O.info_diff(O.infoset(t), want)
                if r:
                    out.append("call %d (%s), %s: %s" % (i + 1, name, n, r))
                out += ["call %d (%s), %s re-read: %s" % (i + 1, name, n, x) for x in M.compare(O.io().from_string(t), d)]
    return out[:6]


@case
def ndm_locations(p):
    kw = LOCS[p["loc"]]
    o = build_ndm(p["ndm"])
    with Scratch() as s:
        f = os.path.join(s, "f")
        texts = {"NdmIo": O.io().to_string(o, O.fmt("XML"), **kw), "NdmXmlIo": xml_io().to_string(o, **kw)}
        O.io().to_file(o, O.fmt("XML"), f, **kw)
        texts["file"] = open(f, encoding="utf-8").read()
    want = ndm_info(ndm_xml(dict(p["ndm"], attrs="")))
    names = {"schema_location": "schemaLocation", "no_namespace_schema_location": "noNamespaceSchemaLocation"}
    attrs = sorted((XSI_NS + names[n], x) for n, x in kw.items())
    out = []
    for n, t in texts.items():
        g = ndm_info(t)
        if list(g[1]) != attrs:
            out.append("%s: attributes %r, expected %r" % (n, g[1], attrs))
        if (g[0],) + g[2:] != (want[0],) + want[2:] and any(O.info_diff(a, b) for x, y in zip(g[3], want[3]) for a, b in zip(x, y)):
            out.append("%s: contents differ" % n)
        out += ["%s re-read: %s" % (n, x) for x in check_ndm(O.io().from_string(t), p["ndm"])]
    return out


@prop("P25", "all sequences of at most 3 (thorough 4) writes with 5 combinations of schema locations, by both writers, to text and file, for each message type")
def p25(run, th):
    def gen():
        for k in M.KINDS:
            d = M.fill(M.base(k))
            deep = 4 if th else (3 if k in ("opm", "oem", "tdm") else 2)
            for n in range(1, deep + 1):
                for seq in itertools.product(LOCS, repeat=n):
                    yield [k] + list(seq), {"doc": d, "seq": list(seq)}
    run.explore("sequences of writes", gen(), locations)

    def combined():
        for n in range(0, 4 if th else 3):
            for seq in itertools.product(M.KINDS, repeat=n):
                for loc in LOCS:
                    for head in ({}, {"message_id": "m", "comment": ["c"]}):
                        yield list(seq) + [loc, len(head)], {"loc": loc, "ndm": dict(head, messages=fillm([M.base(k) for k in seq]))}
    run.explore("combined messages", combined(), ndm_locations)


# ------------------------------------------------------------------ environment
@case
def environment(p):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
    env.update(p["env"])
    env["PYTHONPATH"] = os.pathsep.join([engine.REPO, engine.HERE])
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    with Scratch():
        r = subprocess.run([sys.executable] + p["flags"] + ["-m", "mc.envcase"], env=env, capture_output=True, timeout=110)
    if r.returncode == 3:
        return r.stdout.decode("ascii", "replace").splitlines()[:6]
    if r.returncode:
        return ["the process failed: " + r.stderr.decode("ascii", "replace")[-600:]]
    return [], r.stdout.decode("ascii", "replace").strip()


@prop("P27", "all combinations of 3 locales, 3 settings of the UTF-8 mode, 2 hash seeds, 2 optimisation levels and 2 time zones, each with 7 decimal "
             "contexts; all message types read and written in both encodings, through texts and files")
def p27(run, th):
    def gen():
        for loc, utf8, hs, opt, tz in itertools.product(["C", "C.utf8", "POSIX"], ["0", "1", ""], ["0", "7"], [[], ["-OO"]], ["UTC", "Asia/Tokyo"]):
            if not th and (hs == "7") != (tz != "UTC"):
                continue
            env = {"LC_ALL": loc, "PYTHONHASHSEED": hs, "TZ": tz, "PYTHONCOERCECLOCALE": "0"}
            if utf8:
                env["PYTHONUTF8"] = utf8
            yield [loc, utf8, hs, opt, tz], {"env": env, "flags": opt}
    run.explore("environments", gen(), environment, chunk=1)
