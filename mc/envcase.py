"""One environment: every type, both encodings, texts and files (run as a process of its own)."""
import decimal
import sys

from . import engine


def main():
    engine.load_repo()
    from . import checks_api as A
    from . import model as M
    from . import oracle as O
    from . import render as R

    out = []
    ctxs = [decimal.Context(prec=28), decimal.Context(prec=3), decimal.Context(prec=50, rounding=decimal.ROUND_DOWN),
            decimal.Context(prec=2, rounding=decimal.ROUND_UP), decimal.Context(prec=9, capitals=0),
            decimal.Context(prec=1, Emin=-1, Emax=1, traps=list(decimal.getcontext().traps)), decimal.Context(traps=[])]
    for i, ctx in enumerate(ctxs):
        decimal.setcontext(ctx)
        for k in M.KINDS:
            for full in (0, 1) if i == 0 else (1,):
                d = O.kdoc(A.rich(k, full))
                for p, f in A.X.slots(d):
                    if f["type"] == "decimal" and A.X.in_range(f, "0.123456789012345678"):
                        M.get(d, p[:-1])[p[-1]] = "0.123456789012345678"
                        break
                cases = [(O.all_four, {"doc": d})]
                if i == 0:
                    cases += [(O.all_four, {"doc": O.kdoc(M.fill(M.base(k, full), M.Odd(n * 17)))}) for n in range(3)]
                if i == 0:
                    for kvn in (True, False):
                        cases.append((A.entry_read, {"doc": d, "kvn": kvn, "entry": "NdmIo.from_path", "name": "f", "how": "str"}))
                        cases.append((A.entry_read, {"doc": d, "kvn": kvn, "entry": "low.from_path", "name": "f", "how": "str"}))
                        cases.append((A.entry_read, {"doc": d, "kvn": kvn, "entry": "NdmIo.from_path", "name": "f", "how": "Path"}))
                        cases += [(A.entry_read, {"doc": d, "kvn": kvn, "entry": e, "name": "f", "how": "str"})
                                  for e in ["NdmIo.from_bytes", "NdmIo.from_string", "low.from_string"] + ["low.from_bytes"] * (not kvn)]
                        cases += [(A.odd_ways, {"doc": d, "kvn": kvn, "odd": w}) for w in ("mark", "one byte per character", "declared one byte", "broken character")]
                        cases.append((A.entry_write, {"doc": d, "kvn": kvn, "entry": "NdmIo", "name": "f", "how": "str", "before": "longer"}))
                        cases.append((A.entry_write, {"doc": d, "kvn": kvn, "entry": "low", "name": "f", "how": "str", "before": "source"}))
                for fn, p in cases:
                    r, _ = engine.guarded(fn, p)
                    out += ["%s %s, decimal context %d: %s" % (k, fn.__name__, i, x) for x in r]
    from . import checks_text as T
    for key, p in T.ident_cases():
        if p["want"] in ("nothing", "unidentified", "json") and (key[0] != "tokens" or len(key[1]) < 3):
            r, _ = engine.guarded(T.identify, p)
            out += ["%s: %s" % (key, x) for x in r]
    from . import checks_ndm as N
    for k in M.KINDS:
        d = M.fill(M.base(k))
        xs = [R.xml(d), N.ndm_xml({"messages": [d, M.clone(d)], "comment": ["c"]})]
        for x in xs:
            ends = [i for i, c in enumerate(x) if c in "<>"]
            for i in ends[:: max(1, len(ends) // 40)] + ends[-8:]:
                r, _ = engine.guarded(T.xml_cut, {"text": x, "from": i, "to": i + 1})
                out += ["%s: %s" % (k, y) for y in r]
                r, _ = engine.guarded(T.xml_damage, {"text": x, "from": i, "to": i + 1})
                out += ["%s: %s" % (k, y) for y in r]
        for key, p in T.alien(d, k):
            r, _ = engine.guarded(T.xml_alien, p)
            out += ["%s: %s" % (k, y) for y in r]
    if out:
        print("\n".join(ascii(x)[1:-1] for x in out[:8]))
        return 3
    print("held")
    return 0


if __name__ == "__main__":
    sys.exit(main())
