"""One-off tool: dump the object-tree vocabulary of the pinned commit to spec/ndm_spec.json.

The dump was then reviewed by hand against the CCSDS/NDM-XML vocabulary and the sample
files; it is committed and *frozen*: the checks read the JSON file only and never derive
expectations from the code under test.
"""
import dataclasses, enum, json, sys, typing
from decimal import Decimal
from ccsds_ndm.models import ndmxml2 as m

classes, enums = {}, {}

def base_type(t):
    args = typing.get_args(t)
    return args[0] if args else t

def tname(t):
    if t is str: return "str"
    if t is int: return "int"
    if t is Decimal: return "decimal"
    if isinstance(t, type) and issubclass(t, enum.Enum):
        if t.__name__ not in enums:
            enums[t.__name__] = [[n, mem.value] for n, mem in t.__members__.items()]
        return "enum:" + t.__name__
    walk(t)
    return "class:" + t.__name__

def walk(c):
    if c.__name__ in classes: return
    classes[c.__name__] = None
    out = []
    for f in dataclasses.fields(c):
        md = dict(f.metadata)
        hints = typing.get_type_hints(c)
        t = hints[f.name]
        islist = typing.get_origin(t) is list
        kind = {"Element": "element", "Attribute": "attribute"}.get(md.get("type"), "text")
        d = {"attr": f.name, "xml": md.get("name") or f.name, "kind": kind, "type": tname(base_type(t)),
             "list": islist, "required": bool(md.get("required") or md.get("min_occurs"))}
        if not f.init: d["fixed"] = f.default
        for k in ("min_inclusive","max_inclusive","min_exclusive","max_exclusive","min_occurs","max_occurs"):
            if k in md: d[k] = str(md[k])
        if md.get("sequential"): d["sequential"] = True
        out.append(d)
    classes[c.__name__] = out

roots = {}
for n in "Aem Apm Cdm Oem Omm Opm Rdm Tdm".split():
    c = getattr(m, n); walk(c)
    roots[n.lower()] = {"class": n, "id": c.id, "version": c.version, "xml": c.Meta.name}
walk(m.Ndm)
json.dump({"roots": roots, "classes": classes, "enums": enums}, open(sys.argv[1], "w"), indent=0, sort_keys=False)
print(len(classes), len(enums), sum(map(len, classes.values())))
