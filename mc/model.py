"""Reference model of NDM documents, driven by the frozen vocabulary in spec/ndm_spec.json.

An *abstract document* is a nested dict {"_c": class name, attr: value}; a value is a
str (lexical form), a nested dict, or a list of those.  Nothing here is derived from the
code under test, except that `build` instantiates the public object-tree classes.
"""
import enum
import json
import os
from decimal import Decimal

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = json.load(open(os.path.join(HERE, "..", "spec", "ndm_spec.json")))
CLASSES = SPEC["classes"]
ENUMS = {k: [v for _, v in vs] for k, vs in SPEC["enums"].items()}
ENUM_MEMBERS = SPEC["enums"]
ROOTS = SPEC["roots"]
KINDS = list(ROOTS)
FIELDS = {c: {f["attr"]: f for f in fs} for c, fs in CLASSES.items()}


def root_class(kind):
    return ROOTS[kind]["class"]


def is_class(f):
    return f["type"].startswith("class:")


def is_enum(f):
    return f["type"].startswith("enum:")


def tname(f):
    return f["type"].split(":", 1)[-1]


def is_leaf_class(cname):
    """A class carrying character data (value + attributes): PositionType, ..."""
    return any(f["kind"] == "text" for f in CLASSES[cname])


def text_field(cname):
    return next(f for f in CLASSES[cname] if f["kind"] == "text")


def doc_fields(cname):
    """Settable fields of a class, schema order."""
    return [f for f in CLASSES[cname] if "fixed" not in f]


# ------------------------------------------------------------------ navigation
def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def walk(doc, path=()):
    """Yield (path, node) for every class node of the document, document order."""
    yield path, doc
    for f in doc_fields(doc["_c"]):
        a = f["attr"]
        if a not in doc or not is_class(f):
            continue
        if f["list"]:
            for i, n in enumerate(doc[a]):
                yield from walk(n, path + (a, i))
        else:
            yield from walk(doc[a], path + (a,))


def clone(x):
    """Fast deep copy of an abstract document."""
    if type(x) is dict:
        return {k: clone(v) if type(v) in (dict, list) else v for k, v in x.items()}
    return [clone(v) if type(v) in (dict, list) else v for v in x]


def canon(doc):
    return json.dumps(doc, sort_keys=True)


# ------------------------------------------------------------------ object trees
def models():
    from ccsds_ndm.models import ndmxml2

    return ndmxml2


def build_value(f, v, shared=None):
    t = f["type"]
    if t == "str":
        return v
    if t == "int":
        return int(v)
    if t == "decimal":
        return Decimal(v)
    if is_enum(f):
        return getattr(models(), tname(f))(v)
    return build(v, shared)


def build(doc, shared=None):
    """Build the object tree with the public classes (as a library user would).

    With a dict as `shared`, equal parts of the document become one and the same object."""
    if shared is not None:
        key = canon(doc)
        if key not in shared:
            shared[key] = _build(doc, shared)
        return shared[key]
    return _build(doc, None)


def _build(doc, shared):
    cls = getattr(models(), doc["_c"])
    kw = {}
    for f in doc_fields(doc["_c"]):
        a = f["attr"]
        if a not in doc:
            continue
        v = doc[a]
        kw[a] = [build_value(f, x, shared) for x in v] if f["list"] else build_value(f, v, shared)
    return cls(**kw)


def _cmp_simple(f, got, want, path, out):
    t = f["type"]
    if t == "str":
        ok = type(got) is str and got == want
    elif t == "int":
        ok = type(got) is int and got == int(want)
    elif t == "decimal":
        # exact: same number, and no digit lost
        ok = type(got) is Decimal and got == Decimal(want)
    elif is_enum(f):
        ok = isinstance(got, enum.Enum) and got.value == want and type(got).__name__ == tname(f)
    else:
        raise AssertionError(t)
    if not ok:
        out.append("%s: expected %r, got %r" % (path, want, got))


def compare(obj, doc, path="", ignore_comments=False, ignore_units_classes=()):
    """Differences between an object tree and an abstract document."""
    out = []
    _compare(obj, doc, path or doc["_c"], out, ignore_comments)
    return out


def _compare(obj, doc, path, out, ic):
    c = doc["_c"]
    if type(obj).__name__ != c:
        out.append("%s: expected a %s object, got %r" % (path, c, _short(obj)))
        return
    if len(out) > 20:
        return
    for f in CLASSES[c]:
        a = f["attr"]
        p = path + "." + a
        if not hasattr(obj, a):
            out.append("%s: attribute missing" % p)
            continue
        got = getattr(obj, a)
        if "fixed" in f:
            if got != f["fixed"]:
                out.append("%s: expected fixed %r, got %r" % (p, f["fixed"], got))
            continue
        if ic and a == "comment":
            continue
        if f["list"]:
            want = doc.get(a, [])
            if not isinstance(got, list) or len(got) != len(want):
                n = len(got) if isinstance(got, list) else got
                out.append("%s: expected %d item(s), got %r %s" % (p, len(want), n, _short(got)))
                continue
            for i, (g, w) in enumerate(zip(got, want)):
                if is_class(f):
                    _compare(g, w, "%s[%d]" % (p, i), out, ic)
                else:
                    _cmp_simple(f, g, w, "%s[%d]" % (p, i), out)
        elif a not in doc:
            if got is not None:
                out.append("%s: expected nothing, got %r" % (p, _short(got)))
        elif is_class(f):
            if got is None:
                out.append("%s: expected a %s, got None" % (p, tname(f)))
            else:
                _compare(got, doc[a], p, out, ic)
        else:
            _cmp_simple(f, got, doc[a], p, out)


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


# ------------------------------------------------------------------ value alphabet
def is_epoch(f):
    x = f["xml"]
    return f["type"] == "str" and (
        "EPOCH" in x or "DATE" in x or "_TIME" in x or x.endswith("_START")
        or x.endswith("_END") or x in ("TCA", "START_SCREEN_PERIOD", "STOP_SCREEN_PERIOD"))


class Values:
    """Distinct default values, so that a misplaced datum is always visible."""

    def __init__(self):
        self.n = 0

    def nxt(self):
        self.n += 1
        return self.n

    def simple(self, f):
        t = f["type"]
        x = f["xml"]
        if is_enum(f):
            vs = ENUMS[tname(f)]
            return next((v for v in vs if v == v.upper()), vs[0])
        n = self.nxt()
        if t == "int":
            return str(n)
        if t == "decimal":
            return self.decimal(f, n)
        if x == "COMMENT":
            return "note %d" % n
        if is_epoch(f):
            return "2021-%02d-%02dT%02d:30:%02d.%d" % (n % 12 + 1, n % 27 + 1, n % 24, n % 60, n)
        return "V %d" % n if n % 2 else "V%d" % n

    @staticmethod
    def decimal(f, n):
        lo = f.get("min_inclusive", f.get("min_exclusive"))
        hi = f.get("max_inclusive", f.get("max_exclusive"))
        if hi is not None and Decimal(hi) <= 0:
            return "-%d.5" % n
        if hi is not None and Decimal(hi) <= 1:
            return "0.%04d" % n
        if hi is not None and Decimal(hi) <= 360:
            return "%d.%04d" % (n % 80 + 1, n)
        return "%d.25" % n


class Same(Values):
    """Equal values everywhere: nothing may depend on values being different."""

    number, text, note, time = 7, "V", "note", "2021-02-03T04:05:06"

    def nxt(self):
        return 7

    def simple(self, f):
        if is_enum(f):
            return super().simple(f)
        if f["type"] == "int":
            return str(self.number)
        if f["type"] == "decimal":
            return self.decimal(f, self.number)
        if f["xml"] == "COMMENT":
            return self.note
        return self.time if is_epoch(f) else self.text


# texts that careless processing changes (normalisation, escapes, limits, conversions, markup)
ODD_TEXTS = ["Cafe\u0301", "\u212b \ufb01 \u00b9", "A\u200bB", "A\ufeffB", "A\u00adB", "\u200fA", "\u0130 \u00df \u0131", "A\tB", "A\u007fB", "R&amp;D", "&#65;",
             "&lt;b&gt;", "&nbsp;", "%20 %41", "%s %d %%", "{0} {x}", "{{}}", "\\u0041 \\x41 \\t", "A\\", "\\", "A-", "A,", "A;", "A:", "; c", "! c", "// c", "/* c */", "-- c",
             "# c", "A # c", "A ; c", "A // c", "${HOME} $HOME", "~", "`x`", "{", "}", "^|@", "\u201cq\u201d", "\u2013 \u2212 \u2026", "A" * 254 + "B", "a b " * 700 + "c",
             "x" * 4097, "x" * 65536 + "y", "NONE", "None", "null", "nil", "NIL", "undefined", "n/a", "N/A", "NA", "nan", "-Infinity", "TRUE", "False", "yes", "NO", "on", "1,5",
             "1 000", "0x1F", "1e5", "1.50", "+1", "00", "-0", "1/2", "10:20", "2021-01-01", "2021-001", "20210101", "25 [km]", "1.0 [x] [y]", "X [km] = 1", "km", "[", "]]", "()", "<a>",
             "</a>", "<!--x-->", "<?x?>", "<![CDATA[x]]>", "]]>", "''", "\"\"", "'a", "\"a b\"", "a''b", "COMMENT", "COMMENTARY", "comment", "META", "META_START", "DATA_STOP",
             "EPOCH", "USER_DEFINED", "CCSDS_", "opm", "ndm", "XmlType", "Type", "MyTypeX", "QUATERNION", "id", "version", "OBJECT2", "a.b.c", "a_b-c", "\u65e5\u672c",
             "\U0001f469\u200d\U0001f680", "x \u0085 y", "x \u2028 y", "x \u2029 y", "x \u3000 y", "a  b   c"]


class Odd(Values):
    """Texts and comments that careless processing changes, a different one in each place."""

    def __init__(self, start=0):
        super().__init__()
        self.k = start

    def simple(self, f):
        if f["type"] == "str" and not is_enum(f) and not is_epoch(f):
            self.k += 1
            return ODD_TEXTS[self.k * 11 % len(ODD_TEXTS)]
        return super().simple(f)


class Zero(Same):
    """Zero, as far as it is allowed; empty comments; texts that are false or look like numbers."""

    number, text, note = 0, "0", ""

    @staticmethod
    def decimal(f, n):
        from .explore import in_range
        return next(v for v in ("0.0", "0.5", "-0.5", "1.5", "30.5") if in_range(f, v))


class Falling(Values):
    """Distinct values in descending order: the order in the message is the order of the data, whatever the values."""

    def __init__(self):
        self.n = 9998

    def nxt(self):
        self.n -= 1
        return self.n

    def simple(self, f):
        if is_epoch(f):
            return "%04d-01-02T03:04:05" % self.nxt()
        if f["xml"] == "COMMENT":
            return "note %04d" % self.nxt()
        if f["type"] == "str":
            return "V %04d" % self.nxt()
        return super().simple(f)


FILLS = {"distinct": Values, "same": Same, "zero": Zero, "falling": Falling, "odd": Odd}


# A *shape* is an abstract document whose plain values may be None: `fill` gives every
# None a distinct value in document order.  Shapes are what the explorers deduplicate.
AXES_A = ["X_ANGLE", "Y_ANGLE", "Z_ANGLE"]
AXES_R = ["X_RATE", "Y_RATE", "Z_RATE"]


def leaf(f, unit=True):
    c = tname(f)
    d = {"_c": c}
    for g in doc_fields(c):
        if g["attr"] == "units":
            if unit or g["required"]:
                d["units"] = ENUMS[tname(g)][0]
        else:
            d[g["attr"]] = None
    return d


def make(cname, full=False, unit=True, skip=frozenset()):
    """Minimal (required fields only) or full shape of a class."""
    d = {"_c": cname}
    if cname in SPECIAL:
        return SPECIAL[cname](full, unit)
    for f in doc_fields(cname):
        if (cname, f["attr"]) in skip or not (full or f["required"] or (cname, f["attr"]) in NEEDED):
            continue
        put(d, f, full, unit, skip)
    return d


def make_one(f, full=False, unit=True, skip=frozenset()):
    if is_class(f):
        c = tname(f)
        return leaf(f, unit) if is_leaf_class(c) else make(c, full, unit, skip)
    return None


def put(d, f, full=False, unit=True, skip=frozenset(), n=None):
    a = f["attr"]
    if f["list"]:
        k = n if n is not None else max(1, int(f.get("min_occurs", 1)))
        d[a] = [make_one(f, full, unit, skip) for _ in range(k)]
    else:
        d[a] = make_one(f, full, unit, skip)


def _rotation(cname, key, axes):
    def mk(full=False, unit=True, seq="123"):
        d = {"_c": cname}
        for i, ch in enumerate(seq):
            f = FIELDS[cname]["rotation%d" % (i + 1)]
            d[f["attr"]] = dict(leaf(f, unit), **{key: axes[int(ch) - 1]})
        return d
    return mk


rot_angles = _rotation("RotationAngleType", "angle", AXES_A)
rot_rates = _rotation("RotationRateType", "rate", AXES_R)


def observation(attr="range", unit=False):
    f = FIELDS["TrackingDataObservationType"][attr]
    return {"_c": "TrackingDataObservationType", "epoch": None, attr: make_one(f, unit=unit)}


ATT_FIELD = {
    "QUATERNION": "quaternion_state", "QUATERNION/DERIVATIVE": "quaternion_derivative",
    "QUATERNION/RATE": "quaternion_euler_rate", "EULER_ANGLE": "euler_angle",
    "EULER_ANGLE/RATE": "euler_angle_rate", "SPIN": "spin", "SPIN/NUTATION": "spin_nutation",
}


def att_state(atype="QUATERNION", seq="321", unit=False):
    a = ATT_FIELD[atype.upper()]
    f = FIELDS["AttitudeStateType"][a]
    d = {"_c": tname(f)}
    for g in doc_fields(d["_c"]):
        c = tname(g)
        if c == "RotationAngleType":
            d[g["attr"]] = rot_angles(unit=unit, seq=seq)
        elif c == "RotationRateType":
            d[g["attr"]] = rot_rates(unit=unit, seq=seq)
        else:
            put(d, g, unit=unit)
    return {"_c": "AttitudeStateType", a: d}


def set_attitude(seg, atype="QUATERNION", qtype="LAST", seq="321", n=None):
    """Make an AemSegment shape self-consistent for an attitude type."""
    m = seg["metadata"]
    for k in ("quaternion_type", "euler_rot_seq"):
        m.pop(k, None)
    m["attitude_type"] = atype
    u = atype.upper()
    if u.startswith("QUATERNION"):
        m["quaternion_type"] = qtype
    if u.startswith("EULER") or u.endswith("RATE"):
        m["euler_rot_seq"] = seq
    n = len(seg["data"]["attitude_state"]) if n is None else n
    seg["data"]["attitude_state"] = [att_state(atype, seq) for _ in range(n)]


def aem_segment(full=False, unit=False):
    md = make("AemMetadata", full)
    seg = {"_c": "AemSegment", "metadata": md,
           "data": {"_c": "AemData", "attitude_state": [None] * (2 if full else 1)}}
    if full:
        seg["data"]["comment"] = [None]
    set_attitude(seg)
    return seg


SPECIAL = {
    "RotationAngleType": rot_angles,
    "RotationRateType": rot_rates,
    "TrackingDataObservationType": lambda full, unit: observation(),
    "AttitudeStateType": lambda full, unit: att_state(),
    "AemSegment": aem_segment,
}
# optional in the vocabulary, but a meaningful document needs one of a choice
NEEDED = {("MeanElementsType", "mean_motion"), ("KeplerianElementsType", "true_anomaly"),
          ("UserDefinedType", "user_defined")}


def reorder(d):
    """Fields in schema order (edits may append)."""
    c = d["_c"]
    r = {"_c": c}
    for f in doc_fields(c):
        a = f["attr"]
        if a in d:
            v = d[a]
            if is_class(f):
                v = [reorder(x) for x in v] if f["list"] else reorder(v)
            r[a] = v
    return r


def fill(shape, vals=None):
    """Concrete document of a shape: every None gets a distinct value."""
    vals = vals or Values()
    c = shape["_c"]
    d = {"_c": c}
    for f in doc_fields(c):
        a = f["attr"]
        if a not in shape:
            continue
        v = shape[a]

        def one(x):
            if isinstance(x, dict):
                return fill(x, vals)
            if x is not None:
                return x
            if a == "parameter":
                return "PARAM_%d" % vals.nxt()
            return vals.simple(f)

        d[a] = [one(x) for x in v] if f["list"] else one(v)
    return d


def base(kind, full=False, unit=True):
    root = root_class(kind)
    d = make(root, full, unit)
    if kind in ("oem", "aem", "tdm") and not full:
        pass
    return strip_data_units(d)


def strip_data_units(doc):
    """Data lines of OEM/AEM/TDM carry no unit in KVN."""
    for p, n in walk(doc):
        if n["_c"] in ("StateVectorAccType", "OemCovarianceMatrixType", "AttitudeStateType",
                       "TrackingDataObservationType"):
            for _, m in walk(n):
                m.pop("units", None)
    return doc


# ------------------------------------------------------------------ object tree -> document
def _lex(f, v):
    t = f["type"]
    if isinstance(v, enum.Enum):
        return v.value
    if t == "decimal" or t == "int":
        return str(v)
    return v


def decompile(obj):
    """Abstract document of an object tree (no validation; unknown attributes ignored)."""
    c = type(obj).__name__
    d = {"_c": c}
    for f in doc_fields(c):
        v = getattr(obj, f["attr"])
        if v is None or v == []:
            continue
        if f["list"]:
            d[f["attr"]] = [decompile(x) if is_class(f) else _lex(f, x) for x in v]
        else:
            d[f["attr"]] = decompile(v) if is_class(f) else _lex(f, v)
    return d


def without_comments(doc):
    d = {}
    for k, v in doc.items():
        if k == "comment":
            continue
        if isinstance(v, dict):
            v = without_comments(v)
        elif isinstance(v, list):
            v = [without_comments(x) if isinstance(x, dict) else x for x in v]
        d[k] = v
    return d


def has_empty_block(shape):
    """True if some element block carries nothing but comments (cannot be told apart in KVN)."""
    return any(not (set(n) - {"_c", "comment"}) for _, n in walk(shape))
