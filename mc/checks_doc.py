"""Properties of single messages: what is read is what was written, in both encodings."""
from . import explore as X
from . import model as M
from . import oracle as O
from . import render as R
from .checks import prop

BLOCKS = ["opm", "omm", "apm", "rdm", "cdm"]      # keyword-structured messages
LINES = ["oem", "aem", "tdm"]                     # messages with data lines and segments
SHAPES = "every document within {q} edits of the minimal and 1 edit of the full and multi-segment documents of " \
         "each type (thorough: 2 edits of all, 3 of the minimal ones), filled with distinct values; 1 edit and all " \
         "multiplicities of repeatable blocks filled with equal and with zero values; every value of the value alphabet " \
         "in every slot; all pairs of variants of each repeatable block next to each other (not P07)"


def multi(kind):
    """Documents with repeated blocks of different extent next to each other."""
    lo, hi = M.base(kind), M.base(kind, True)
    out = []
    b = "body"
    root = M.root_class(kind)
    body = M.FIELDS[root].get(b)
    if not body:
        return out
    segf = M.FIELDS[M.tname(body)].get("segment")
    if segf and segf["list"]:
        s0, s1 = lo[b]["segment"][0], hi[b]["segment"][0]
        d = M.clone(hi)
        if kind == "cdm":
            return out
        d[b]["segment"] = [M.clone(s0), M.clone(s1), M.clone(s0)]
        out.append((kind + ":min+full+min", d))
        d = M.clone(lo)
        d[b]["segment"] = [M.clone(s1), M.clone(s0), M.clone(s1)]
        out.append((kind + ":full+min+full", d))
    return out


def bases(kind):
    return X.bases(kind) + multi(kind)


def succ(families=None):
    return lambda s: [(lab, d) for _, lab, d in X.edits(s, families)]


def payload(kvn):
    def mk(s):
        if M.has_empty_block(s):
            return None
        d = M.fill(s)
        return {"doc": O.kdoc(d) if kvn else d}
    return mk


def shapes(run, fn, kinds, kvn, thorough, families=None, qdepth=2, label=""):
    """The document-shape search of a property."""
    for k in kinds:
        depth_min = (3 if k in ("opm", "omm", "oem") else 2) if thorough else qdepth
        run.search(label + k + " shapes, minimal", [X.bases(k)[0]], depth_min, succ(families), payload(kvn), M.canon, fn)
        rest = bases(k)[1:]
        run.search(label + k + " shapes, full", rest, 2 if thorough else 1, succ(families), payload(kvn), M.canon, fn)


def values(run, fn, kinds, kvn, thorough, edits=None, label="", which=("min", "full")):
    """Single-value substitutions over the alphabets."""
    edits = edits or X.value_edits

    def gen(k):
        for n, b in bases(k) if thorough else X.bases(k):
            if n.split(":")[1] not in which and not thorough:
                continue
            d0 = M.fill(b)
            for lab, d in edits(d0):
                yield [n, lab], {"doc": O.kdoc(d) if kvn else d}

    for k in kinds:
        run.explore(label + k + " values", gen(k), fn)


def uniform(run, fn, kinds, kvn, thorough):
    """Equal and zero contents: all shapes within 1 edit of the bases, repeated blocks, segment sequences."""
    def gen(k):
        src = [(h, s) for h, s in X.bfs(bases(k), 1, None if k != "cdm" or thorough else {"list", "comment"})]
        src += list(repeated(k, thorough))
        if k in LINES:
            src += list(segment_products(k, False))
        seen = set()
        for key, s in src:
            if M.has_empty_block(s) or M.canon(s) in seen:
                continue
            seen.add(M.canon(s))
            for name in ("same", "zero", "falling", "odd"):
                d = M.fill(s, M.Odd(len(seen)) if name == "odd" else M.FILLS[name]())
                yield [name] + list(key), {"doc": O.kdoc(d) if kvn else d}
                if name == "same" and fn in (O.kvn_write, O.xml_both):
                    yield ["same object"] + list(key), {"doc": O.kdoc(d) if kvn else d, "shared": 1}
    for k in kinds:
        run.explore(k + " uniform contents", gen(k), fn)
    extremes(run, fn, kinds, kvn, thorough)


EPOCH_FORMS = ["2021-02-03T04:05:06." + "1234567890" * 3, "2021-034T04:05:06.1234567890123Z", "2021-02-03T04:05:06+00:00", "2021-034T04:05:06.5-01:30",
               "2021-02-03T04:05:06.", "2021-034T04:05:06.000000000000000000001", "2021-02-03T23:59:60Z", "9999-366T24:00:00", "0000-001T00:00:00.0"]
NUMBER_FORMS = [".5", "-.5", "+.25", "5.", "+5", "1E1", "-1.5e-05", "00.50", "0." + "3" * 120]


def keyword_lines(doc):
    """Every keyword of a message with its value and all others of its vocabulary, and the section marks."""
    out = sorted(R.MARK_WORDS)
    for ln in R.kvn_lines(doc):
        if ln[0] == "kv":
            out.append("%s = %s" % ln[1:3])
        elif ln[0] in ("data", "obs"):
            out.append(" ".join(ln[1]) if ln[0] == "data" else "%s = %s %s" % ln[1:4])
    for _, n in M.walk(doc):
        for f in M.doc_fields(n["_c"]):
            if M.is_enum(f) and f["attr"] != "units":
                out += ["%s = %s" % (f["xml"], x) for x in M.ENUMS[M.tname(f)]]
    return list(dict.fromkeys(out))


def extremes(run, fn, kinds, kvn, thorough, what=("numbers", "sizes", "keywords", "epochs")):
    """Every number in an unusual form; long texts and comment blocks; comments that repeat the message."""
    def gen(k):
        src = list(bases(k))
        if k == "aem":
            src += [("/".join(map(str, h)), s) for h, s in X.bfs(bases(k)[:1], 1, {"aemtype"})]
        for n, b in src:
            d0 = M.fill(b)
            slots = list(X.slots(d0))
            for v in NUMBER_FORMS if "numbers" in what else []:
                d = M.clone(d0)
                for p, f in slots:
                    if f["type"] == "decimal":
                        w = next((x for x in (v, v.lstrip("+-"), "-" + v.lstrip("+-")) if X.in_range(f, x)), None)
                        if w:
                            M.get(d, p[:-1])[p[-1]] = w
                yield [n, "all numbers", v], d
            for v in EPOCH_FORMS if "epochs" in what else []:
                d = M.clone(d0)
                for p, f in slots:
                    if M.is_epoch(f):
                        M.get(d, p[:-1])[p[-1]] = v
                yield [n, "all epochs", v], d
            ps = [] if M.has_empty_block(b) else comment_slots(d0)
            for p in ps if "sizes" in what else []:
                d = M.clone(d0)
                M.get(d, p)["comment"] = ["line %d" % i for i in range(700)]
                yield [n, "700 comments", "/".join(map(str, p)) or "."], d
            if "sizes" in what:
                d = M.clone(d0)
                for p, f in slots:
                    if f["type"] == "str" and not M.is_epoch(f):
                        M.get(d, p[:-1])[p[-1]] = "%s %s" % (M.get(d, p), "long text " * 400 + ".")
                yield [n, "long texts"], d
            if "keywords" in what:
                lines = keyword_lines(O.kdoc(d0))
                for p in ps + [None]:
                    d = M.clone(d0)
                    for q in ps if p is None else [p]:
                        M.get(d, q)["comment"] = list(lines)
                    yield [n, "keywords in comments", "/".join(map(str, p or ["everywhere"])) or "."], d

    for k in kinds:
        run.explore(k + " extremes", (([str(key)], {"doc": O.kdoc(d) if kvn else d}) for key, d in gen(k)), fn)


LINES_OF_TEXT = ["A\nB", "A \n\n\t B", "\n  A\n", "A\r\nB", "A\rB", "A \r REF_FRAME = X", "A\nREF_FRAME = X", "A\n\nMETA_START\nB", "A\nCOMMENT B", "1\n2"]


def multiline(run, which):
    """Texts of several lines, which KVN has to carry on one line."""
    def gen(k):
        for n, b in X.bases(k):
            if n.split(":")[1] not in which:
                continue
            d0 = O.kdoc(M.fill(b))
            ps = [p for p, f in X.slots(d0) if f["type"] == "str" and not M.is_epoch(f)]
            for t in LINES_OF_TEXT:
                for p in ps + [None]:
                    d = M.clone(d0)
                    for q in ps if p is None else [p]:
                        M.get(d, q[:-1])[q[-1]] = t
                    yield [n, "/".join(map(str, p or ["everywhere"])), t], {"doc": d}
    for k in M.KINDS:
        run.explore(k + " texts of several lines", gen(k), O.kvn_of_lines)


# ------------------------------------------------------------------ whole documents
@prop("P01", SHAPES.format(q=2))
def p01(run, th):
    shapes(run, O.kvn_read, BLOCKS, True, th)
    values(run, O.kvn_read, BLOCKS, True, th, which=("full",))
    uniform(run, O.kvn_read, BLOCKS, True, th)
    mixed(run, O.kvn_read, BLOCKS, True, th)


@prop("P02", SHAPES.format(q=2))
def p02(run, th):
    shapes(run, O.kvn_read, LINES, True, th)
    values(run, O.kvn_read, LINES, True, th)
    uniform(run, O.kvn_read, LINES, True, th)
    mixed(run, O.kvn_read, LINES, True, th)


@prop("P03", SHAPES.format(q=2))
def p03(run, th):
    multiline(run, ("min", "full") if th else ("full",))
    shapes(run, O.kvn_write, M.KINDS, True, th)
    values(run, O.kvn_write, M.KINDS, True, th)
    uniform(run, O.kvn_write, M.KINDS, True, th)
    mixed(run, O.kvn_write, M.KINDS, True, th)


@prop("P04", SHAPES.format(q=2) + " (conjunction data messages: 1 edit in the quick tier)")
def p04(run, th):
    shapes(run, O.kvn_round, [k for k in M.KINDS if k != "cdm"], True, th)
    shapes(run, O.kvn_round, ["cdm"], True, th, qdepth=1)
    values(run, O.kvn_round, M.KINDS, True, th, which=("full",))
    uniform(run, O.kvn_round, M.KINDS, True, th)
    mixed(run, O.kvn_round, M.KINDS, True, th)


@prop("P05", SHAPES.format(q=2) + " (conjunction data messages: 1 edit in the quick tier)")
def p05(run, th):
    shapes(run, O.xml_read, [k for k in M.KINDS if k != "cdm"], False, th)
    shapes(run, O.xml_read, ["cdm"], False, th, qdepth=1)
    values(run, O.xml_read, M.KINDS, False, th, which=("full",))
    uniform(run, O.xml_read, M.KINDS, False, th)
    mixed(run, O.xml_read, M.KINDS, False, th)


@prop("P06", SHAPES.format(q=2) + " (conjunction data messages: 1 edit in the quick tier)")
def p06(run, th):
    shapes(run, O.xml_write, [k for k in M.KINDS if k != "cdm"], False, th)
    shapes(run, O.xml_write, ["cdm"], False, th, qdepth=1)
    shapes(run, O.xml_round, M.KINDS, False, th, qdepth=1, label="round trip ")
    values(run, O.xml_round, M.KINDS, False, th, which=("full",))
    uniform(run, O.xml_both, M.KINDS, False, th)
    mixed(run, O.xml_both, M.KINDS, False, th)


@prop("P07", SHAPES.format(q=1))
def p07(run, th):
    shapes(run, O.convert, M.KINDS, True, th, qdepth=1)
    values(run, O.convert, M.KINDS, True, th, which=("min",))
    uniform(run, O.convert, M.KINDS, True, th)


# ------------------------------------------------------------------ values
NUMBERS = ["0", "-0", "0.0", "1", "-1", "+1.5", ".5", "-.5", "5.", "007.50", "1E+3", "1e-10", "-2.5E-07", "1E5", "1e+308",
           "4.9E-324", "1E400", "-1E-400", "0.10", "100", "1000000", "1E0", "0E-7", "-0.0",
           "123456789012345678901234567890.123456789", "0.1234567890123456789012345678901234567890",
           "-99999999999999999999999999999999999999", "3.1415926535897932384626433832795028841971"]
INTEGERS = ["0", "1", "7", "42", "123456789", "99999999999999999999", "-1", "007"]


def number_edits(doc, numbers=None):
    for p, f in X.slots(doc):
        vs = [v for v in numbers or NUMBERS if X.in_range(f, v)] if f["type"] == "decimal" else \
             [v for v in INTEGERS if X.in_range(f, v)] if f["type"] == "int" else []
        for v in vs:
            d = M.clone(doc)
            M.get(d, p[:-1])[p[-1]] = v
            yield "%s=%s" % ("/".join(map(str, p)), v), d


@prop("P08", "every numeric slot of the full (thorough: also minimal and multi-segment) documents of each type x "
             "28 decimal or 8 integer forms, in range; read and written in both encodings")
def p08(run, th):
    values(run, O.all_four, M.KINDS, True, th, number_edits, which=("full",))

    def ints():
        for k in M.KINDS:
            for n, b in bases(k):
                d = O.kdoc(M.fill(b))
                ps = [p for p, f in X.slots(d) if f["type"] == "decimal"]
                for v in ("0", "1", "-1", "7", "-90", "12345678901234567890123"):
                    e = M.clone(d)
                    for p, f in X.slots(d):
                        if f["type"] == "decimal" and X.in_range(f, v):
                            M.get(e, p[:-1])[p[-1]] = v
                    yield [n, "everywhere", v], {"doc": e}
                    for p, f in X.slots(d) if n.endswith("full") else []:
                        if f["type"] == "decimal" and X.in_range(f, v):
                            e = M.clone(d)
                            M.get(e, p[:-1])[p[-1]] = v
                            yield [n, "/".join(map(str, p)), v], {"doc": e}
    run.explore("whole numbers as int", ints(), O.with_ints)


def unit_edits(doc):
    for fam, lab, d in X.edits(doc, {"unit"}):
        yield lab, d
    yield "no unit", drop_units(doc, lambda i: True)
    yield "odd units off", drop_units(doc, lambda i: i % 2)
    yield "even units off", drop_units(doc, lambda i: not i % 2)


UNIT_NUMBERS = [".5", "-.5", "5.", "+1.5", "-2.5E-07", "1e-10", "1E5", "0", "-0", "007.50", "1234567890.123456789012345678901234567890"]


def unit_numbers(doc):
    """Every spelling of a number in front of a unit."""
    for lab, d in number_edits(doc, UNIT_NUMBERS):
        p = lab.split("=")[0].split("/")
        n = M.get(d, [int(x) if x.isdigit() else x for x in p[:-1]])
        if "units" in n:
            yield lab, d


def bare_units(doc):
    """No unit at all, which KVN allows for every quantity."""
    yield "no unit, required ones included", drop_units(doc, lambda i: True, True)
    for j in range(sum("units" in n for _, n in M.walk(doc))):
        yield "no unit at %d" % j, drop_units(doc, lambda i: i == j, True)


def drop_units(doc, pred, required=False):
    d = M.clone(doc)
    i = 0
    for _, n in M.walk(d):
        if "units" in n and (required or not M.FIELDS[n["_c"]]["units"]["required"]):
            if pred(i):
                n.pop("units")
            i += 1
    return d


@prop("P09", "every unit of every dimensioned quantity, present, absent and replaced, within 1 edit of the full and 2 "
             "edits of the minimal documents (thorough: 2 edits of both), and three uniform patterns of absence")
def p09(run, th):
    values(run, O.all_four, M.KINDS, True, th, unit_edits)
    values(run, O.all_four, M.KINDS, True, th, unit_numbers, label="numbers with units: ", which=("full",))
    for k in M.KINDS:
        if k != "cdm" or th:
            run.search(k + " units, 2 edits", X.bases(k)[:2 if th else 1], 2, succ({"unit"}), payload(True), M.canon, O.all_four)
    values(run, O.kvn_both, M.KINDS, True, th, bare_units, label="quantities without unit: ")
    # data lines: units are carried in XML only
    run.explore("units of data lines in XML", data_units(), O.xml_both)


def data_units():
    for k in LINES:
        for full in (False, True):
            s = M.make(M.root_class(k), full, True)
            for fam, lab, d in [("", "as made", s)] + X.edits(s, {"unit"}):
                yield [k, full, lab], {"doc": M.fill(d)}
    for t in X.AEM_TYPES:
        s = M.base("aem")
        seg = s["body"]["segment"][0]
        M.set_attitude(seg, t)
        seg["data"]["attitude_state"] = [M.att_state(t, unit=True)]
        yield ["aem", t, "units"], {"doc": M.fill(s)}
    for o in X.OBS_KINDS:
        s = M.base("tdm")
        s["body"]["segment"][0]["data"]["observation"] = [M.observation(o, unit=True)]
        yield ["tdm", o, "units"], {"doc": M.fill(s)}


def enum_edits(doc):
    for fam, lab, d in X.edits(doc, {"enum", "aemtype", "rotseq", "obs"}):
        yield lab, d


@prop("P10", "every value of every enumerated keyword, every attitude representation x quaternion order x rotation "
             "sequence, every observation type, in every place of the minimal, full and multi-segment documents; "
             "pairs of them in the minimal documents")
def p10(run, th):
    fam = {"enum", "aemtype", "rotseq", "obs"}
    for k in M.KINDS:
        run.search(k + " vocabulary", bases(k), 1, succ(fam), payload(True), M.canon, O.all_four)
    for k in M.KINDS if th else ("opm", "omm", "apm", "oem", "aem", "rdm"):
        run.search(k + " vocabulary pairs", X.bases(k)[:2 if th else 1], 2, succ(fam), payload(True), M.canon, O.all_four)


# ------------------------------------------------------------------ comments
def comment_slots(doc):
    return [p for p, n in M.walk(doc) if "comment" in M.FIELDS[n["_c"]]]


def comment_docs(kind, th):
    for n, b in bases(kind):
        ps = comment_slots(b)
        bare = M.clone(b)
        for p in ps:
            M.get(bare, p).pop("comment", None)
        # one block commented at a time, and every pair of blocks, with 0..3 lines each
        for i, p in enumerate(ps):
            for k in (1, 2, 3):
                d = M.clone(bare)
                M.get(d, p)["comment"] = [None] * k
                yield [n, "/".join(map(str, p)) or ".", k], d
            for q in ps[i + 1:] if th or len(ps) < 14 else ps[i + 1:i + 4]:
                for k, l in ((1, 1), (2, 1), (1, 2), (3, 3)):
                    d = M.clone(bare)
                    M.get(d, p)["comment"] = [None] * k
                    M.get(d, q)["comment"] = [None] * l
                    yield [n, "/".join(map(str, p)) or ".", k, "/".join(map(str, q)), l], d
        d = M.clone(bare)
        for p in ps:
            M.get(d, p)["comment"] = [None] * 2
        yield [n, "everywhere", 2], d


TEXTS_OF_COMMENTS = X.COMMENTS + ["A  B   C", "x" * 90, "COMMENT COMMENT", "a=b", "META_START", "META_STOP", "DATA_STOP",
                                  "COVARIANCE_START", "CCSDS_OPM_VERS = 2.0", "USER_DEFINED_X = 1", "</COMMENT>", "]]>", "&amp;",
                                  "tab\there", "1 2 3 4 5 6 7", "RANGE = 2021-001T00:00:00 1", "\u65e5\u672c"] + M.ODD_TEXTS


def comment_texts(kind, th):
    for n, b in X.bases(kind):
        ps = comment_slots(b)
        for p in ps:
            for t in TEXTS_OF_COMMENTS:
                for pos in (0, 1) if th or t not in M.ODD_TEXTS else (1,):
                    d = M.clone(b)
                    c = ["first", "second"]
                    c[pos] = t
                    M.get(d, p)["comment"] = c
                    yield [n, "/".join(map(str, p)) or ".", pos, t], d
        for t in TEXTS_OF_COMMENTS:
            d = M.clone(b)
            for p in ps:
                M.get(d, p)["comment"] = [t, t]
            yield [n, "everywhere", t], d


EQ_COMMENTS = ["= x", "=", "==", "== heading ==", "=[km]", "= = =", "=COMMENT"]
"""KVN takes one leading equal sign of a comment for a separator: such comments are written and read back."""


def comment_equals(kind, th):
    for n, b in X.bases(kind):
        for p in comment_slots(b):
            for t in EQ_COMMENTS:
                d = M.clone(b)
                M.get(d, p)["comment"] = [t, "x", t]
                yield [n, "/".join(map(str, p)) or ".", t], d


def comment_edges(kind, th):
    """Comments with white space that only XML can hold."""
    for n, b in X.bases(kind):
        d0 = M.fill(b)
        for p in comment_slots(b):
            for t in EDGE_TEXTS:
                for pos in (0, 1) if th else (1,):
                    d = M.clone(d0)
                    c = ["first", "second"]
                    c[pos] = t
                    M.get(d, p)["comment"] = c
                    yield [n, "/".join(map(str, p)) or ".", pos, t], {"doc": d, "cr": "\r" in t}


@prop("P19", "1..3 comment lines in each commentable block and in pairs of blocks of the minimal, full and multi-segment "
             "documents; 33 comment texts at each place; all keyword lines of the message as comments and 700 comments in each block; 14 texts with white space at the ends or line breaks in XML; 7 texts that start with an equal sign, written and read back (thorough: all pairs of blocks)")
def p19(run, th):
    extremes(run, O.all_four, M.KINDS, True, th, ("sizes", "keywords"))
    for k in M.KINDS:
        mk = payload(True)
        run.explore(k + " places", ((key, mk(d)) for key, d in comment_docs(k, th) if mk(d)), O.all_four)
        run.explore(k + " texts", ((key, mk(d)) for key, d in comment_texts(k, th) if mk(d)), O.kvn_both if k == "cdm" and not th else O.all_four)
        run.explore(k + " white space in XML comments", comment_edges(k, th), O.xml_text)
        run.explore(k + " texts with equal signs", ((key, mk(d)) for key, d in comment_equals(k, th) if mk(d)), O.written)


# ------------------------------------------------------------------ repetition
def repeated(kind, th):
    """Products of multiplicities of the repeatable blocks, distinct contents everywhere."""
    lo, hi = M.base(kind), M.base(kind, True)
    for full in (False, True):
        b = hi if full else lo
        lists = []
        for p, n in M.walk(b):
            for f in M.doc_fields(n["_c"]):
                a = f["attr"]
                if f["list"] and a != "comment" and M.is_class(f) and int(f.get("max_occurs") or 99) > 2:
                    if not any(isinstance(x, int) and x > 0 for x in p):
                        lists.append((p, f))
        for p, f in lists:
            for k in (1, 2, 3, 4, 5, 12):
                d = M.clone(b)
                grow(d, p, f, k)
                yield [kind, "full" if full else "min", "/".join(map(str, p)) + "/" + f["attr"], k], d
            if not full and M.tname(f) != "NdmType":
                for k in (70, 300) + ((1100,) if th or M.tname(f) in ("StateVectorAccType", "UserDefinedParameterType") else ()):
                    d = M.clone(b)
                    grow(d, p, f, k)
                    yield [kind, "min", "/".join(map(str, p)) + "/" + f["attr"], k], d
        for i, (p, f) in enumerate(lists):
            for q, g in lists[i + 1:]:
                for k in (0, 1, 3):
                    for l in (0, 1, 3):
                        d = M.clone(b)
                        # inner list first: growing the outer one copies it
                        if not grow(d, q, g, l) or not grow(d, p, f, k):
                            continue
                        yield [kind, "full" if full else "min", f["attr"], k, g["attr"], l], d


def grow(d, p, f, k):
    try:
        n = M.get(d, p)
    except (KeyError, IndexError):
        return False
    a = f["attr"]
    if k < int(f.get("min_occurs") or 0) or (k == 0 and (n["_c"], a) in M.NEEDED):
        return False
    if k == 0:
        n.pop(a, None)
        return len(n) > 1
    one = n[a][0] if n.get(a) else M.make_one(f, True)
    n[a] = [M.clone(one) for _ in range(k)]
    return True


def item_variants(item_lo, item_hi, cname):
    """The minimal and full item and every one with a single optional part more or less."""
    out, seen = [], set()
    for name, it in (("min", item_lo), ("full", item_hi)):
        for lab, d in [(name, it)] + [(name + " " + lab, d) for fam, lab, d in X.edits(it, {"field", "comment", "choice", "list", "obs", "aemtype"})
                                      if fam != "aemtype" or lab.split(" ")[0].endswith(("LAST,321", "FIRST,132"))]:
            k = M.canon(d)
            if k not in seen:
                seen.add(k)
                out.append((lab, d))
    return out


def mixtures(kind, th):
    """Every repeatable block: all pairs of its variants next to each other, triples of minimal and full ones."""
    import itertools
    lo, hi = M.base(kind), M.base(kind, True)
    for p, n in list(M.walk(hi)):
        for f in M.doc_fields(n["_c"]):
            a = f["attr"]
            if not f["list"] or a == "comment" or not M.is_class(f) or any(isinstance(x, int) and x > 0 for x in p):
                continue
            most = int(f.get("max_occurs") or 99)
            if most < 2:
                continue

            def one(doc, full):
                try:
                    return M.clone(M.get(doc, p)[a][0])
                except (KeyError, IndexError):
                    return M.make_one(f, full)
            v = item_variants(one(lo, False), one(hi, True), M.tname(f))
            ends = v[:1] + [x for x in v if x[0] == "full"]
            pairs = itertools.product(v, v) if len(v) <= (90 if th else 36) else list(itertools.product(ends, v)) + list(itertools.product(v, ends))
            combos = list(pairs) + (list(itertools.product(ends, repeat=3)) if most > 2 else [])
            if th and most > 2 and len(v) <= 12:
                combos += list(itertools.product(v, repeat=3))
            for host, doc in (("min", lo), ("full", hi)):
                for combo in combos:
                    d = M.clone(doc)
                    try:
                        M.get(d, p)[a] = [M.clone(x) for _, x in combo]
                    except (KeyError, IndexError):
                        break
                    d = M.reorder(d)
                    M.strip_data_units(d)
                    yield [kind, host, "/".join(map(str, p)) + "/" + a] + [x for x, _ in combo], d


def mixed(run, fn, kinds, kvn, th):
    mk = payload(kvn)
    for k in kinds:
        run.explore(k + " mixtures", ((key, mk(d)) for key, d in mixtures(k, th) if mk(d)), fn)


def segment_products(kind, th):
    """All segment sequences of length <= 3 (thorough 4) over variants with 1..3 data entries."""
    import itertools
    lo, hi = M.base(kind), M.base(kind, True)
    s0, s1 = lo["body"]["segment"][0], hi["body"]["segment"][0]
    var = []
    if kind == "oem":
        for nsv in (1, 3):
            for nc in (0, 1, 2):
                for full in (0, 1):
                    s = M.clone(s1 if full else s0)
                    sv = s["data"]["state_vector"]
                    s["data"]["state_vector"] = [M.clone(sv[0]) for _ in range(nsv)]
                    cm = M.make("OemCovarianceMatrixType", bool(full), False)
                    s["data"].pop("covariance_matrix", None)
                    if nc:
                        s["data"]["covariance_matrix"] = [M.clone(cm) for _ in range(nc)]
                    var.append(("sv%d cov%d %s" % (nsv, nc, "full" if full else "min"), M.reorder(s)))
    elif kind == "aem":
        for t in X.AEM_TYPES:
            for n in (1, 2):
                s = M.clone(s1 if n == 2 else s0)
                M.set_attitude(s, t, "FIRST" if n == 2 else "LAST", "321", n)
                var.append(("%s x%d" % (t, n), s))
    else:
        for ks in (["range"], ["range", "doppler_integrated"], ["angle_1", "angle_2", "angle_1"], ["comment", "transmit_freq_1"],
                   ["receive_freq_2", "range", "receive_freq_2", "range"]):
            for full in (0, 1):
                s = M.clone(s1 if full else s0)
                c = [k for k in ks if k != "comment"]
                c = [k for k in c if k in X.OBS_KINDS] or ["range"]
                s["data"]["observation"] = [M.observation(k) for k in c]
                s["data"].pop("comment", None)
                if "comment" in ks:
                    s["data"]["comment"] = [None, None]
                var.append(("+".join(ks) + (" full" if full else ""), M.reorder(s)))
    n = 3 if th else 2
    for k in range(1, n + 1):
        for combo in itertools.product(var, repeat=k):
            d = M.clone(lo)
            d["body"]["segment"] = [M.clone(v) for _, v in combo]
            yield [kind] + [x for x, _ in combo], d


@prop("P22", "each repeatable block repeated 1..5 and 12 times and pairs of them 0, 1 and 3 times, in minimal and full "
             "documents; all pairs of variants (one optional part more or less) of each repeatable block next to each other; all sequences of at most 2 (thorough 3) segments over 10-14 segment variants")
def p22(run, th):
    mk = payload(True)
    for k in M.KINDS:
        run.explore(k + " multiplicities", ((key, mk(d)) for key, d in repeated(k, th) if mk(d)), O.all_four)
    mixed(run, O.all_four, M.KINDS, True, th)
    for k in LINES:
        run.explore(k + " segments", ((key, mk(d)) for key, d in segment_products(k, th) if mk(d)), O.all_four)
    uniform(run, O.all_four, M.KINDS, True, th)


# ------------------------------------------------------------------ user defined, text
UD_NAMES = ["A", "EARTH_MODEL", "EPOCH", "X", "COMMENT", "CCSDS_OPM_VERS", "USER_DEFINED_", "USER_DEFINED_X", "META_START", "OBJECT_NAME",
            "1", "A-B", "A.B", "MAN_EPOCH_IGNITION", "COV_REF_FRAME", "X_USER_DEFINED_Y"]
UD_VALUES = ["1", "WGS-84", "a = b", "[km]", "1.0 [km]", "x [y] z", "A  B", "<&>\"'", "COMMENT", "USER_DEFINED_X", "2021-01-01T00:00:00",
             "1e-5", "=", "a=b=c", "\u00e9\u20ac", "0.50", "[", "]", "5 [m"]


def ud_docs(kind, th):
    import itertools

    def par(n, v):
        return {"_c": "UserDefinedParameterType", "parameter": n, "value": v}
    for n, b in X.bases(kind):
        path = next((p for p, x in M.walk(M.base(kind, True)) if x["_c"] == "UserDefinedType"), None)
        if path is None:
            return
        b = M.clone(b)
        parent = M.get(b, path[:-1])
        parent[path[-1]] = {"_c": "UserDefinedType", "user_defined": []}
        b = M.reorder(b)
        node = lambda d: M.get(d, path)  # noqa

        def mk(ps, c=0):
            d = M.clone(b)
            x = node(d)
            if c:
                x["comment"] = [None] * c
            x["user_defined"] = ps
            return M.reorder(d)
        for nm in UD_NAMES:
            for v in UD_VALUES:
                yield [n, nm, v], mk([par(nm, v)])
        for v in M.ODD_TEXTS:
            yield [n, "A", v], mk([par("A", v), par("B", "x")])
        pool = [par("A", "1"), par("B", "x y"), par("A", "2"), par("EPOCH", "[km]")]
        for k in (2, 3):
            for combo in itertools.product(range(4), repeat=k):
                for c in (0, 2):
                    yield [n, "seq", list(combo), c], mk([dict(pool[i]) for i in combo], c)


@prop("P23", "16 parameter names x 19 values, and all sequences of at most 3 of 4 parameters (repetitions included) with "
             "and without comments, in the minimal and full documents of each type with user-defined parameters")
def p23(run, th):
    for k in M.KINDS:
        mk = payload(True)
        run.explore(k + " user-defined", ((key, mk(d)) for key, d in ud_docs(k, th) if mk(d)), O.all_four)


TEXT_VALUES = X.TEXTS + ["25544 [ISS] DEB", "25 [km]", "1 [km] [s]", "[A] B", "5 km]", "5 [km", "[5]", "A\u2028B", "A\u0085B", "A\u3000B", "INF", "1_000", "A  B", "x" * 120, "A\u00a0B", "/", "-", "0", "007", "1E5", "true", "NaN", "None", "a;b,c|d", "100%", "#1",
                         "OBJECT1", "COMMENT", "[", "]", "x [", "(RTN)", "'q'", "\"q\"", "a = b = c", "=", "\\n", "USER_DEFINED_A", "EME2000"]
EDGE_TEXTS = [" A", "A ", "\n  A\n  ", "\tA\t", "A\nB", "A \n\n B", " ", "\n", "A\r\nB", "A\rB", "\u00a0A\u00a0", "\ufeffA", "\u2003A", "A\u200b"]
EPOCH_VALUES = X.EPOCHS + ["2021-02-03T04:05:06.0", "2021-02-03T04:05:06.10", "2021-034T04:05:06.5Z", "2021-02-03T04:05:60",
                           "9999-12-31T23:59:59.999999999999999", "2021-001T00:00:00", "2000-02-29T00:00:00"]


def text_edits(doc):
    for p, f in X.slots(doc):
        if f["type"] != "str" or f["attr"] == "comment":
            continue
        own = [f["attr"], f["xml"], "my " + f["attr"] + " x", f["xml"] + " = " + f["xml"], f["attr"].title()]
        for v in EPOCH_VALUES if M.is_epoch(f) else TEXT_VALUES + M.ODD_TEXTS + own:
            d = M.clone(doc)
            M.get(d, p[:-1])[p[-1]] = v
            yield "%s=%r" % ("/".join(map(str, p)), v), d


@prop("P24", "every text slot x {} texts (its own keyword included) and every time slot x 13 calendar and day-of-year times, in the full (thorough: "
             "also minimal and multi-segment) documents, read and written in both encodings".format(len(TEXT_VALUES + M.ODD_TEXTS) + 5))
def p24(run, th):
    values(run, O.all_four, M.KINDS, True, th, text_edits, which=("full",))

    def edge(k):
        # white space is a part of an XML text
        for n, b in X.bases(k):
            d0 = M.fill(b)
            ps = [p for p, f in X.slots(d0) if f["type"] == "str"]
            for t in EDGE_TEXTS:
                for p in ps if th or n.endswith("full") else []:
                    d = M.clone(d0)
                    M.get(d, p[:-1])[p[-1]] = t
                    yield [n, "/".join(map(str, p)), t], {"doc": d, "cr": "\r" in t}
                d = M.clone(d0)
                for p in ps:
                    M.get(d, p[:-1])[p[-1]] = t
                yield [n, "everywhere", t], {"doc": d, "cr": "\r" in t}
    for k in M.KINDS:
        run.explore(k + " white space in XML texts", edge(k), O.xml_text)
