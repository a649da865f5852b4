"""Explicit-state exploration of the document space.

A state is a document *shape* (see model.py); the transitions are single edits.  States are
deduplicated on their canonical form; edits() returns every edit of a shape, simplest first.
"""

from . import model as M

CHOICES = {  # class -> groups of alternatives of which exactly one must be present
    "MeanElementsType": [("mean_motion", "semi_major_axis")],
    "KeplerianElementsType": [("true_anomaly", "mean_anomaly")],
    "TleParametersType": [],
}
GROUPS = {  # fields that come and go together (positional columns of a data line)
    "StateVectorAccType": [("x_ddot", "y_ddot", "z_ddot")],
}
OPAQUE = {"StateVectorAccType", "AttitudeStateType", "TrackingDataObservationType",
          "OemCovarianceMatrixType", "RotationAngleType", "RotationRateType"}
AEM_TYPES = list(M.ATT_FIELD)
ROT_SEQS = ["121", "123", "131", "132", "212", "213", "231", "232", "312", "313", "321", "323"]
OBS_KINDS = [f["attr"] for f in M.doc_fields("TrackingDataObservationType") if f["attr"] != "epoch"]


def data_unit(cname):
    return cname in ("StateVectorAccType", "OemCovarianceMatrixType", "AttitudeStateType",
                     "TrackingDataObservationType")


def edits(shape, families=None, unit=True):
    """All single edits of a shape: (family, label, new shape)."""
    out = []

    def emit(fam, label, path, fn):
        if families and fam not in families:
            return
        d = M.clone(shape)
        n = M.get(d, path)
        if fn(n) is False:
            return
        out.append((fam, label, M.reorder(d)))

    inside = []  # paths of opaque data-line nodes
    for path, node in M.walk(shape):
        c = node["_c"]
        if any(path[:len(p)] == p and path != p for p in inside):
            continue
        loc = "/".join(map(str, path)) or "."
        if c in ("StateVectorAccType", "AttitudeStateType", "TrackingDataObservationType",
                 "RotationAngleType", "RotationRateType"):
            inside.append(path)
        if M.is_leaf_class(c):
            uf = M.FIELDS[c].get("units")
            if uf and unit:
                if "units" in node:
                    if not uf["required"]:
                        emit("unit", "-unit " + loc, path, lambda n: n.pop("units"))
                    for u in M.ENUMS[M.tname(uf)]:
                        if u != node["units"]:
                            emit("unit", "unit=%s %s" % (u, loc), path, lambda n, u=u: n.update(units=u))
                else:
                    for u in M.ENUMS[M.tname(uf)]:
                        emit("unit", "+unit=%s %s" % (u, loc), path, lambda n, u=u: n.update(units=u))
            if c == "UserDefinedParameterType":
                continue
            continue
        if c == "AemSegment":
            md = node["metadata"]
            for t in AEM_TYPES:
                qs = ["LAST", "FIRST"] if t.startswith("QUATERNION") else ["LAST"]
                ss = ROT_SEQS if t.startswith("EULER") or t.endswith("RATE") else ["321"]
                for q in qs:
                    for s in ss:
                        emit("aemtype", "attitude=%s,%s,%s %s" % (t, q, s, loc), path,
                             lambda n, t=t, q=q, s=s: M.set_attitude(n, t, q, s))
                # the vocabulary has each of these words in lower case too
                for s in [s for s in ss if s in ("321", "131")]:
                    for q in qs:
                        for a, b in [(t.lower(), q), (t, q.lower()), (t.lower(), q.lower())][:3 if len(qs) > 1 else 1]:
                            emit("aemtype", "attitude=%s,%s,%s %s" % (a, b, s, loc), path,
                                 lambda n, t=a, q=b, s=s: M.set_attitude(n, t, q, s))
        if c in ("RotationAngleType", "RotationRateType"):
            key, axes = ("angle", M.AXES_A) if c == "RotationAngleType" else ("rate", M.AXES_R)
            for s in ROT_SEQS:
                def setseq(n, s=s):
                    for i, ch in enumerate(s):
                        n["rotation%d" % (i + 1)][key] = axes[int(ch) - 1]
                emit("rotseq", "rot=%s %s" % (s, loc), path, setseq)
            continue
        if c == "TrackingDataObservationType":
            for k in OBS_KINDS:
                if k not in node:
                    def setobs(n, k=k):
                        n.clear()
                        n.update(M.observation(k))
                    emit("obs", "obs=%s %s" % (k, loc), path, setobs)
            continue
        if c == "AttitudeStateType":
            continue
        for grp in GROUPS.get(c, []):
            if all(g in node for g in grp):
                emit("field", "-%s %s" % ("+".join(grp), loc), path,
                     lambda n: [n.pop(g) for g in grp] and None)
            else:
                emit("field", "+%s %s" % ("+".join(grp), loc), path,
                     lambda n: n.update({g: M.leaf(M.FIELDS[c][g], unit=not data_unit(c)) for g in grp}))
        grouped = {g for grp in GROUPS.get(c, []) for g in grp}
        choice = CHOICES.get(c, [])
        for grp in choice:
            cur = [g for g in grp if g in node]
            for g in grp:
                if g not in node:
                    def swap(n, g=g):
                        for x in cur:
                            n.pop(x)
                        M.put(n, M.FIELDS[c][g])
                    emit("choice", "choose %s %s" % (g, loc), path, swap)
        chosen = {g for grp in choice for g in grp}
        for f in M.doc_fields(c):
            a = f["attr"]
            if a in grouped or a in chosen:
                continue
            if c == "AemMetadata" and a in ("attitude_type", "quaternion_type", "euler_rot_seq"):
                continue
            if a == "comment":
                for k in (0, 1, 2):
                    if k != len(node.get("comment", [])):
                        def setc(n, k=k):
                            n["comment"] = [None] * k
                            if not k:
                                n.pop("comment")
                        emit("comment", "comments=%d %s" % (k, loc), path, setc)
                continue
            if f["list"]:
                cur = node.get(a, [])
                lo = int(f.get("min_occurs", 0) or 0)
                if (c, a) in M.NEEDED:
                    lo = max(lo, 1)
                hi = int(f.get("max_occurs") or 3)
                if c == "Ndm":
                    continue
                if len(cur) < min(hi, 3):
                    for full in ((False, True) if M.is_class(f) and not M.is_leaf_class(M.tname(f))
                                 and M.tname(f) not in OPAQUE else (False,)):
                        def grow(n, full=full):
                            n.setdefault(a, [])
                            x = M.make_one(f, full=full, unit=not data_unit(M.tname(f)) )
                            if M.tname(f) == "AttitudeStateType":
                                x = M.clone(n[a][-1])
                            n[a].append(x)
                        emit("list", "+%s%s %s" % (a, "(full)" if full else "", loc), path, grow)
                if len(cur) > lo:
                    for i in ([0, -1] if len(cur) > 1 else [0]):
                        def shrink(n, i=i):
                            n[a].pop(i)
                            if not n[a]:
                                n.pop(a)
                        emit("list", "-%s[%d] %s" % (a, i, loc), path, shrink)
                continue
            if a not in node:
                fulls = (False, True) if M.is_class(f) and not M.is_leaf_class(M.tname(f)) else (False,)
                for full in fulls:
                    emit("field", "+%s%s %s" % (a, "(full)" if full else "", loc), path,
                         lambda n, full=full: M.put(n, f, full=full, unit=not data_unit(c)))
            else:
                if not f["required"] and (c, a) not in M.NEEDED:
                    emit("field", "-%s %s" % (a, loc), path, lambda n: n.pop(a))
                if M.is_enum(f) and a != "units":
                    vs = M.ENUMS[M.tname(f)]
                    cur = node[a] or M.Values().simple(f)
                    for v in vs:
                        if v != cur:
                            emit("enum", "%s=%s %s" % (a, v, loc), path, lambda n, v=v: n.update({a: v}))
    # strip units accidentally added to data lines
    res = []
    for fam, label, d in out:
        if fam != "unit":
            M.strip_data_units(d)
        res.append((fam, label, d))
    return res


def bfs(bases, depth, families=None, limit=None):
    """Yield (history, shape) for every distinct state within `depth` edits of the bases.

    families: None, or list per depth level."""
    seen, frontier = set(), []
    for name, b in bases:
        k = M.canon(b)
        if k not in seen:
            seen.add(k)
            frontier.append(([name], b))
            yield [name], b
    for lvl in range(depth):
        nxt = []
        fam = families[lvl] if isinstance(families, list) else families
        for hist, s in frontier:
            for f, label, d in edits(s, fam):
                k = M.canon(d)
                if k in seen:
                    continue
                seen.add(k)
                h = hist + [label]
                nxt.append((h, d))
                yield h, d
        frontier = nxt


def bases(kind):
    return [(kind + ":min", M.base(kind)), (kind + ":full", M.base(kind, True))]


# ------------------------------------------------------------------ value alphabet
DECIMALS = ["0", "1", "-1", "-0.0", "1E+3", "1e-10", "-2.5E-07", "123456789012345678901234567890.123456789",
            "0.1234567890123456789012345678901234", "3.10", "1000000"]
TEXTS = ["A", "A B", "a=b", "ESA [OPS]", "25544", "2000-001A", "<&>\"'", "\u00e9\u20ac\U0001d11e", "META_START",
         "COMMENT x", "CCSDS_OPM_VERS", "EPOCH", "N/A", "[x]", "1.5", "2021-01-01T00:00:00", "X = 1 [km]"]
EPOCHS = ["2021-02-03T04:05:06", "2021-034T04:05:06", "2021-02-03T04:05:06.123456789012", "2021-02-03T04:05:06Z",
          "2021-365T23:59:60.5", "0001-01-01T00:00:00"]
INTS = ["0", "1", "7", "123456789"]
COMMENTS = ["", "x", "a = b [c]", "2021-001T00:00:00 1 2 3", "META_STOP", "COMMENT", "0", "EPOCH = 1", "\u00e9 <&>",
            "2021", "1.0 2.0", "x == y", "DATA_START", "[km]", "EPOCH", "- line -"]


def in_range(f, v):
    from decimal import Decimal
    v = Decimal(v)
    for k, op in (("min_inclusive", v.__ge__), ("max_inclusive", v.__le__),
                  ("min_exclusive", v.__gt__), ("max_exclusive", v.__lt__)):
        if k in f and not op(Decimal(f[k])):
            return False
    return True


def alphabet(f):
    t = f["type"]
    if f["attr"] == "comment":
        return COMMENTS
    if t == "decimal":
        return [v for v in DECIMALS if in_range(f, v)]
    if t == "int":
        return [v for v in INTS if in_range(f, v)]
    if t == "str":
        return EPOCHS if M.is_epoch(f) else TEXTS
    return []


def slots(doc, path=()):
    """Every plain value slot: (path, field)."""
    for f in M.doc_fields(doc["_c"]):
        a = f["attr"]
        if a not in doc:
            continue
        vs = doc[a] if f["list"] else [doc[a]]
        for i, v in enumerate(vs):
            p = path + ((a, i) if f["list"] else (a,))
            if isinstance(v, dict):
                yield from slots(v, p)
            elif a not in ("parameter", "units", "angle", "rate") and not M.is_enum(f):
                if a in ("attitude_type", "quaternion_type", "euler_rot_seq"):
                    continue
                yield p, f


def value_edits(doc):
    """Single-value substitutions on a concrete document (or shape)."""
    for p, f in slots(doc):
        for v in alphabet(f):
            d = M.clone(doc)
            n = M.get(d, p[:-1])
            if n[p[-1]] == v:
                continue
            n[p[-1]] = v
            yield "%s=%r" % ("/".join(map(str, p)), v), d
