"""check <property id> [quick|thorough]  |  check --replay <artefact>  |  check --list"""
import json
import os
import sys
import traceback

from . import engine


def main(argv):
    engine.load_repo()
    from . import checks

    if argv[:1] == ["--list"]:
        for k in sorted(checks.PROPS):
            print(k)
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if not argv or argv[0] not in checks.PROPS:
        print("usage: check <%s> [quick|thorough]" % "|".join(sorted(checks.PROPS)), file=sys.stderr)
        return 2
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        return 2
    run = engine.Run(argv[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    spec = checks.PROPS[argv[0]]
    spec.fn(run, tier == "thorough")
    return run.finish("model_checking", spec.bounds, True, spec.assumptions)


def replay(path):
    from . import checks  # noqa: registers the case functions

    a = json.load(open(path))
    problems, _ = engine.guarded(engine.FNS[a["fn"]], a["payload"])
    if problems:
        print("VIOLATION property=%s replay=%s" % (a["property"], path))
        for p in problems:
            print("   ", str(p)[:600])
        return 1
    print("replay: property %s holds on this case" % a["property"])
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
