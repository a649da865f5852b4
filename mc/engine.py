"""Running cases on the real code: parallel execution, verdicts, replays, evidence."""
import hashlib
import json
import mmap
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
CASE_TIMEOUT = 60  # seconds for a case that normally takes milliseconds
CASE_MEMORY = 3 << 30  # address space of a worker, in bytes
MAX_TIMEOUTS = 3  # cases without an answer before the rest of a space is given up (the verdict is clear)


def load_repo():
    """Import the code under test from /repo's working tree (and nowhere else)."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import ccsds_ndm
    import ccsds_ndm.ndm_io

    f = os.path.realpath(ccsds_ndm.ndm_io.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("code under test imported from %s, not from %s" % (f, REPO))


FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # development aid: stop at the first violation


class Timeout(BaseException):
    """Not caught by the handlers of the code under test."""


def _alarm(signum, frame):
    raise Timeout("no answer within %d s" % CASE_TIMEOUT)


def guarded(fn, *a):
    """Run one case: (problems, outcome key).  An exception of the code under test is a problem."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT, 5)
    try:
        r = fn(*a)
    except Timeout as e:
        r = ["did not terminate: %s" % e]
    except MemoryError:
        r = ["did not terminate: out of memory"]
    except HarnessError:
        raise
    except Exception as e:  # noqa
        r = ["raised %s" % describe(e)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if isinstance(r, tuple):
        return r
    return r, None


class HarnessError(Exception):
    """The machinery itself is wrong (never a verdict)."""


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "ccsds_ndm" in fr.filename:
            where = " at %s in %s" % (os.path.basename(fr.filename), fr.name)
            break
    return "%s: %s%s" % (type(e).__name__, str(e)[:300], where)


FNS = {}  # name -> case function: payload -> problems, or (problems, outcome class)


def case(fn):
    """Register a case function (replays find it by name)."""
    FNS[fn.__name__] = fn
    return fn


_FN = None
_EXPAND = None
_SEEN = None


_HUNG = None  # number of cases without an answer, shared by the workers


def _bound():
    """Limits of a worker process: code that eats all memory is stopped like code that never ends."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))


def _count_hung(problems):
    if problems and str(problems[0]).startswith("did not terminate"):
        _HUNG.value += 1


def _work(item):
    key, payload = item
    if _HUNG.value >= MAX_TIMEOUTS:
        return key, None, [], "given up", None
    try:
        problems, outcome = guarded(_FN, payload)
        _count_hung(problems)
        return key, payload if problems else None, problems, outcome, None
    except Exception:
        return key, payload, [], None, traceback.format_exc()


class SharedSet:
    """Set of 64-bit hashes shared by forked workers (open addressing in anonymous memory).

    A race between two workers can only make a state be checked twice, never skipped."""

    def __init__(self, bits=23):
        self.mask = (1 << bits) - 1
        self.mem = memoryview(mmap.mmap(-1, 8 << bits)).cast("Q")

    def add(self, h):
        """True if the hash was not there."""
        i = h & self.mask
        while True:
            x = self.mem[i]
            if x == 0:
                self.mem[i] = h
                return True
            if x == h:
                return False
            i = (i + 1) & self.mask


def hash64(text):
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "big") or 1


def _expand_work(task):
    """Check every not yet visited successor of one frontier state (last level of a search)."""
    hist, state = task
    bad, n, edges, outs = [], 0, 0, {}
    try:
        for label, succ, key, payload in _EXPAND(state):
            edges += 1
            if not _SEEN.add(hash64(key)):
                continue
            if payload is None:
                continue
            n += 1
            if _HUNG.value >= MAX_TIMEOUTS:
                break
            problems, outcome = guarded(_FN, payload)
            _count_hung(problems)
            if outcome is not None:
                outs[str(outcome)[:80]] = outs.get(str(outcome)[:80], 0) + 1
            if problems and len(bad) < 10:
                bad.append((hist + [label], payload, problems))
        return hist, n, edges, bad, outs, None
    except Exception:
        return hist, n, edges, bad, outs, traceback.format_exc()


class Run:
    """One check run: collects what was explored and decides the exit status."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.notes = {}
        self.per = {}
        self.fnames = {}
        global _HUNG
        _HUNG = multiprocessing.get_context("fork").Value("i", 0, lock=False)

    def explore(self, label, cases, fn, validated=1, chunk=8, limit_violations=40):
        """Run `fn` on every (key, payload[, edges]) of `cases`, in parallel; every case is decided.

        The generator is consumed lazily in this process; workers are forked first."""
        global _FN
        if FAILFAST and self.violations:
            return 0
        _FN = fn
        n = 0
        t = time.time()
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)), _bound) as pool:
            for key, payload, problems, outcome, err in pool.imap(_work, cases, chunksize=chunk):
                if err:
                    raise HarnessError("case %s: %s" % (key, err))
                n += 1
                if outcome is not None:
                    o = str(outcome)[:80]
                    self.outcomes[o] = self.outcomes.get(o, 0) + 1
                if len(self.samples) < 3 or (n % 997 == 0 and len(self.samples) < 8):
                    self.samples.append({"space": label, "case": key, "outcome": outcome or "held"})
                if problems and len(self.violations) < limit_violations:
                    self.violations.append((label, key, payload, problems))
                    self.fnames[(label, json.dumps(key))] = fn.__name__
                    if FAILFAST:
                        break
        self.states += n
        self.transitions += n
        self.traces += n * validated
        self.per[label] = {"cases": n, "wall_s": round(time.time() - t, 2)}
        return n

    def search(self, label, bases, depth, successors, payload, key, fn, limit_violations=40):
        """Breadth-first search of all states within `depth` edits of the bases, deduplicated.

        successors(state) -> [(edit label, state)]; payload(state) -> case payload, or None when the
        state is only a way-point; key(state) -> canonical text.  All levels but the last are generated
        here; the successors of the last frontier, if it is large, by the workers, which deduplicate and check them."""
        global _FN, _EXPAND, _SEEN
        if FAILFAST and self.violations:
            return
        t = time.time()
        _SEEN = SharedSet()
        frontier, upper, edges = [], [], 0
        for name, b in bases:
            if _SEEN.add(hash64(key(b))):
                frontier.append(([name], b))
                upper.append(([name], b))
        for level in range(depth):
            if level == depth - 1 and len(frontier) > 64:
                break
            nxt = []
            for hist, s in frontier:
                for lab, d in successors(s):
                    edges += 1
                    if _SEEN.add(hash64(key(d))):
                        nxt.append((hist + [lab], d))
            upper += nxt
            frontier = nxt if level < depth - 1 else []
        n0 = self.explore(label, ((h, payload(s)) for h, s in upper if payload(s) is not None), fn)
        _FN = fn

        def expand(s):
            for lab, d in successors(s):
                yield lab, d, key(d), payload(d)

        _EXPAND = expand
        n = 0
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)), _bound) as pool:
            for hist, k, e, bad, outs, err in pool.imap_unordered(_expand_work, frontier, chunksize=1):
                if err:
                    raise HarnessError("expanding %s: %s" % (hist, err))
                n += k
                edges += e
                for o, c in outs.items():
                    self.outcomes[o] = self.outcomes.get(o, 0) + c
                for h, p, pr in bad:
                    if len(self.violations) < limit_violations:
                        self.violations.append((label, h, p, pr))
                        self.fnames[(label, json.dumps(h))] = fn.__name__
                if len(self.samples) < 8 and n % 7 == 0:
                    self.samples.append({"space": label, "case": hist, "outcome": "successors held" if not bad else "violated"})
        self.states += n
        self.transitions += edges - n0
        self.traces += n
        self.per[label] = {"states": n0 + n, "edges": edges, "depth": depth, "wall_s": round(time.time() - t, 2)}

    def finish(self, level, bounds, exhaustive=True, assumptions=()):
        known = known_findings(self.prop)
        fresh, seen_known = [], {}
        for v in self.violations:
            k = case_id(v[0], v[1])
            if k in known:
                seen_known[k] = v
            else:
                fresh.append(v)
        for k, what in known.items():
            if k in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "distinct_outcomes": len(self.outcomes),
            "outcomes": dict(sorted(self.outcomes.items(), key=lambda x: -x[1])[:12]),
            "spaces": self.per,
            "bounds": bounds,
            "exhaustive": exhaustive,
            "samples": self.samples,
        }
        cov.update(self.notes)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        print("%s %s: states=%d transitions=%d replays=%d outcomes=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces,
            len(self.outcomes), time.time() - self.t0))
        if not fresh:
            return 0
        paths = []
        for label, key, payload, problems in fresh[:10]:
            paths.append(self.artefact(label, key, payload, problems))
        print("VIOLATION property=%s replay=%s" % (self.prop, paths[0]))
        for (label, key, payload, problems), p in list(zip(fresh, paths))[:5]:
            print("  [%s] %s" % (label, key if isinstance(key, str) else " > ".join(map(str, key))))
            for x in problems[:3]:
                print("      %s" % str(x)[:400])
            print("      replay: ./check --replay %s" % p)
        return 1

    def artefact(self, label, key, payload, problems):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, case_id(label, key)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "fn": self.fnames[(label, json.dumps(key))], "space": label, "case": key, "payload": payload,
                       "problems": [str(x) for x in problems], "case_id": case_id(label, key)}, f, indent=1)
            f.write("\n")
        return p


def case_id(label, key):
    return hashlib.sha256(json.dumps([label, key], sort_keys=True).encode()).hexdigest()[:16]


def known_findings(prop):
    """`known: property=<id> case=<case id> <what fails>` lines ("fixed:" lines suppress nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("known: property=%s case=" % prop):
                rest = ln.split("case=", 1)[1].strip()
                k, _, what = rest.partition(" ")
                out[k] = what
    return out
