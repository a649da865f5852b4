"""Reference KVN and XML encoders for abstract documents (independent of /repo)."""
import re
from xml.sax.saxutils import escape, quoteattr

from .model import (CLASSES, FIELDS, ROOTS, doc_fields, is_class, is_leaf_class, text_field, tname)

KIND_OF_CLASS = {r["class"]: k for k, r in ROOTS.items()}


# ------------------------------------------------------------------ XML
def xml_node(tag, doc, indent, out, nl):
    c = doc["_c"]
    attrs = ""
    for f in CLASSES[c]:
        if f["kind"] != "attribute":
            continue
        v = f.get("fixed", doc.get(f["attr"]))
        if v is not None:
            attrs += " %s=%s" % (f["xml"], quoteattr(v))
    pad = "  " * indent if nl else ""
    if is_leaf_class(c):
        v = doc.get(text_field(c)["attr"], "")
        out.append("%s<%s%s>%s</%s>" % (pad, tag, attrs, escape(v), tag))
        return
    out.append("%s<%s%s>" % (pad, tag, attrs))
    for f in xml_children(doc):
        xml_field(f, doc, indent, out, nl, pad)
    out.append("%s</%s>" % (pad, tag))


def xml_children(doc):
    return [f for f in doc_fields(doc["_c"]) if f["kind"] == "element"]


def xml_field(f, doc, indent, out, nl, pad):
    a = f["attr"]
    if a not in doc:
        return
    for v in doc[a] if f["list"] else [doc[a]]:
        if is_class(f):
            xml_node(f["xml"], v, indent + 1, out, nl)
        else:
            out.append("%s%s<%s>%s</%s>" % (pad, "  " if nl else "", f["xml"], escape(v), f["xml"]))


def xml(doc, decl=True, nl=True, root_attrs=""):
    out = []
    c = doc["_c"]
    tag = "ndm" if c == "Ndm" else ROOTS[KIND_OF_CLASS[c]]["xml"]
    xml_node(tag, doc, 0, out, nl)
    if root_attrs:
        out[0] = out[0].replace("<" + tag, "<%s %s" % (tag, root_attrs), 1)
    head = ['<?xml version="1.0" encoding="UTF-8"?>'] if decl else []
    return ("\n" if nl else "").join(head + out)


# ------------------------------------------------------------------ KVN
# A KVN document is a list of abstract lines:
#   ("kv", key, value, unit)   ("c", text)   ("data", [tokens])   ("mark", word)   ("gap",)
#   ("obs", key, epoch, value)
COV_ORDER = [f["attr"] for f in CLASSES["OemCovarianceMatrixType"]
             if f["attr"] not in ("comment", "epoch", "cov_ref_frame")]
MARKS = {
    "OemMetadata": "META", "AemMetadata": "META", "TdmMetadata": "META",
    "AemData": "DATA", "TdmData": "DATA",
}


def lex(v):
    return v["value"] if isinstance(v, dict) else v


def kvn_lines(doc):
    root = ROOTS[KIND_OF_CLASS[doc["_c"]]]
    out = [("kv", root["id"], root["version"], None)]
    _kvn(doc, out, {})
    return out


def _kvn(doc, out, ctx):
    c = doc["_c"]
    mark = MARKS.get(c)
    if mark:
        out.append(("gap",))
        out.append(("mark", mark + "_START"))
    if c == "AemSegment":
        ctx = dict(ctx, meta=doc["metadata"])
    for f in doc_fields(c):
        a = f["attr"]
        if a not in doc:
            continue
        v = doc[a]
        if a == "comment":
            out.extend(("c", t) for t in v)
        elif a == "covariance_matrix" and c == "OemData":
            if v:
                out.append(("mark", "COVARIANCE_START"))
                for m in v:
                    out.extend(("c", t) for t in m.get("comment", []))
                    out.append(("kv", "EPOCH", m["epoch"], None))
                    if "cov_ref_frame" in m:
                        out.append(("kv", "COV_REF_FRAME", m["cov_ref_frame"], None))
                    vals = [lex(m[k]) for k in COV_ORDER]
                    i = 0
                    for n in range(1, 7):
                        out.append(("data", vals[i:i + n]))
                        i += n
                out.append(("mark", "COVARIANCE_STOP"))
        elif a == "state_vector" and c == "OemData":
            for s in v:
                out.append(("data", [lex(s[g["attr"]]) for g in doc_fields(s["_c"]) if g["attr"] in s]))
        elif a == "attitude_state":
            for s in v:
                out.append(("data", aem_tokens(s, ctx["meta"])))
        elif a == "observation":
            for s in v:
                (k,) = [k for k in s if k not in ("_c", "epoch")]
                out.append(("obs", FIELDS[s["_c"]][k]["xml"], s["epoch"], lex(s[k])))
        elif a == "user_defined":
            out.extend(("kv", "USER_DEFINED_" + p["parameter"], p["value"], None) for p in v)
        elif is_class(f):
            for x in v if f["list"] else [v]:
                if is_leaf_class(x["_c"]):
                    key = x.get("angle") or x.get("rate") or f["xml"]
                    out.append(("kv", key, x["value"], x.get("units")))
                else:
                    _kvn(x, out, ctx)
        else:
            out.append(("kv", f["xml"], v, None))
    if mark:
        out.append(("mark", mark + "_STOP"))


def aem_tokens(state, meta):
    (k,) = [k for k in state if k != "_c"]
    s = state[k]
    first = meta.get("quaternion_type", "").upper() == "FIRST"
    toks = [s["epoch"]]
    if "quaternion" in s:
        q = s["quaternion"]
        toks += [q[n] for n in (("qc", "q1", "q2", "q3") if first else ("q1", "q2", "q3", "qc"))]
    if "quaternion_rate" in s:
        q = s["quaternion_rate"]
        toks += [q[n]["value"] for n in
                 (("qc_dot", "q1_dot", "q2_dot", "q3_dot") if first else ("q1_dot", "q2_dot", "q3_dot", "qc_dot"))]
    for grp in ("rotation_angles", "rotation_rates"):
        if grp in s:
            toks += [s[grp]["rotation%d" % i]["value"] for i in (1, 2, 3)]
    for g in ("spin_alpha", "spin_delta", "spin_angle", "spin_angle_vel", "nutation", "nutation_per", "nutation_phase"):
        if g in s:
            toks.append(s[g]["value"])
    return toks


PLAIN = {"eq": " = ", "unit": " ", "comment": "COMMENT ", "sep": " ", "nl": "\n", "gap": False,
         "lead": "", "trail": "", "final": True}


def kvn_text(lines, style=None):
    st = dict(PLAIN, **(style or {}))
    out = []
    for ln in lines:
        k = ln[0]
        if k == "gap":
            if st["gap"]:
                out.append("")
            continue
        if k == "kv":
            s = ln[1] + st["eq"] + ln[2]
            if ln[3]:
                s += st["unit"] + "[" + ln[3] + "]"
        elif k == "c":
            s = st["comment"] + ln[1]
        elif k == "data":
            s = st["sep"].join(ln[1])
        elif k == "obs":
            s = ln[1] + st["eq"] + ln[2] + st["sep"] + ln[3]
        else:
            s = ln[1]
        out.append(st["lead"] + s + st["trail"])
    return st["nl"].join(out) + (st["nl"] if st["final"] else "")


def kvn(doc, style=None):
    return kvn_text(kvn_lines(doc), style)


# ------------------------------------------------------------------ independent KVN tokenizer
MARK_WORDS = {a + b for a in ("META", "DATA", "COVARIANCE") for b in ("_START", "_STOP")}
OBS_XML = {f["xml"] for f in FIELDS["TrackingDataObservationType"].values() if f["attr"] != "epoch"}


TEXT_XML = {f["xml"] for fs in FIELDS.values() for f in fs.values() if f["type"] == "str"}


def tokenize(text, kind):
    """Abstract KVN lines of a text (layout-insensitive)."""
    out = []
    for raw in re.split("[\r\n]", text):
        s = raw.strip()
        if not s:
            continue
        if s in MARK_WORDS:
            out.append(("mark", s))
            continue
        if s.startswith("COMMENT") and (len(s) == 7 or s[7] in " \t="):
            t = s[7:].strip()
            if t.startswith("="):
                t = t[1:].strip()
            out.append(("c", t))
            continue
        if "=" not in s:
            out.append(("data", s.split()))
            continue
        k, v = (x.strip() for x in s.split("=", 1))
        if kind == "tdm" and k in OBS_XML:
            p = v.split()
            if len(p) == 2:
                out.append(("obs", k, p[0], p[1]))
                continue
        u = None
        if v.endswith("]") and "[" in v and not k.startswith("USER_DEFINED") and k not in TEXT_XML:
            a, b = v.split("[", 1)
            try:
                float(a)
                v, u = a.strip(), b[:-1].strip()
            except ValueError:
                pass
        out.append(("kv", k, v, u))
    return out


def line_diff(got, want):
    """First difference between two abstract line lists, or None."""
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if not same_line(g, w):
            return "line %d: expected %r, got %r" % (i + 1, w, g)
    return None


def same_line(g, w):
    if g is None or w is None or g[0] != w[0] or len(g) != len(w):
        return g == w
    if g[0] == "kv":
        return g[1] == w[1] and (g[3] or None) == (w[3] or None) and same_value(g[2], w[2])
    if g[0] == "data":
        return len(g[1]) == len(w[1]) and all(map(same_value, g[1], w[1]))
    if g[0] == "obs":
        return g[1:3] == w[1:3] and same_value(g[3], w[3])
    return g == w


def same_value(a, b):
    """Same text, or exactly the same decimal number with no digit lost."""
    if a == b:
        return True
    from decimal import Decimal, InvalidOperation
    try:
        return Decimal(a) == Decimal(b)
    except InvalidOperation:
        return False


def content_lines(doc):
    return [ln for ln in kvn_lines(doc) if ln[0] != "gap"]
