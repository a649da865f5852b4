"""Stateless exploration of thread interleavings of the real code under a controlled scheduler.

Exactly one thread runs at a time.  A thread can be preempted before every source line of the library that it
executes (trace events of frames below <repo>/ccsds_ndm); a schedule is a list of preemptions (thread, event
number), after which the other thread runs until its own preemption or its end.  Every schedule runs in a
freshly forked process, so that first-use initialisation is part of each of them."""
import os
import shutil
import sys
import tempfile
import threading

from . import checks_api as A
from . import engine
from . import model as M
from . import oracle as O
from . import render as R
from .checks import prop
from .engine import case

LIB = os.path.join(os.path.realpath(engine.REPO), "ccsds_ndm") + os.sep


TREES = {}
"""Object trees used by both threads."""


def operation(name):
    """(run, judge): run() uses only objects of its own; judge(result) gives problems."""
    v, k, full, salt = name.split()
    d = texts(O.kdoc(M.fill(M.base(k, full == "full"))))
    if salt != "0":
        d = vary(d, salt)
    kvn = v[0] == "k"
    f = O.fmt("KVN" if kvn else "XML")
    if v.endswith("read"):
        t = R.kvn(d) if kvn else R.xml(d)
        return (lambda: O.io().from_string(t)), (lambda o: O.kcmp(o, d) if kvn else M.compare(o, d))
    o = M.build(d)
    if v.endswith("same"):
        o = TREES.setdefault((k, full, salt), o)

    def judge(t):
        r = R.line_diff(R.tokenize(t, k), R.content_lines(d)) if kvn else O.info_diff(O.infoset(t), O.infoset(R.xml(d)))
        return [r] if r else []
    if v.endswith("file"):
        where = tempfile.mkdtemp(prefix="ndmcheck-")

        def go():
            try:
                p = os.path.join(where, "m")
                O.io().to_file(o, f, p)
                back = O.io().from_path(p)
                with open(p, encoding="utf-8") as fp:
                    return fp.read(), back
            finally:
                shutil.rmtree(where, ignore_errors=True)
        return go, (lambda r: judge(r[0]) + (O.kcmp if kvn else M.compare)(r[1], d))
    if v == "xloc":
        kw = A.LOCS["both" if salt == "0" else "none" if salt == "9" else "sl"]

        def judge(t):
            want = O.infoset(R.xml(d))
            names = {"schema_location": "schemaLocation", "no_namespace_schema_location": "noNamespaceSchemaLocation"}
            want[1] = sorted(want[1] + [(A.XSI_NS + names[n], x) for n, x in kw.items()])
            r = O.info_diff(O.infoset(t), want)
            return [r] if r else []
        return (lambda: O.io().to_string(o, f, **kw)), judge
    return (lambda: O.io().to_string(o, f)), judge


def texts(d):
    """Every other text looks like a number with a unit."""
    from . import explore as X
    for i, (p, f) in enumerate(list(X.slots(d))):
        if f["type"] == "str" and not M.is_epoch(f) and f["xml"] != "COMMENT" and i % 2:
            M.get(d, p[:-1])[p[-1]] = "%d [km]" % i
    return d


def vary(d, salt):
    """Same shape, other values."""
    from . import explore as X
    d = M.clone(d)
    for p, f in list(X.slots(d)):
        n = M.get(d, p[:-1])
        if f["type"] == "str" and not M.is_epoch(f):
            n[p[-1]] = salt + n[p[-1]]
        elif f["type"] == "decimal":
            n[p[-1]] += "7"
    return d


class Scheduler:
    def __init__(self, fns, plan):
        """plan: {thread: event number at which it is preempted (once)}"""
        self.fns, self.plan = fns, plan
        n = len(fns)
        self.baton = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.events = [0] * n
        self.trace = [[] for _ in range(n)]
        self.result = [None] * n
        self.switched = [False] * n
        self.code = {}
        self.blocked = False

    def other(self, i):
        n = len(self.fns)
        for j in range(1, n):
            k = (i + j) % n
            if not self.done[k]:
                return k
        return None

    def point(self, i, frame):
        e = self.events[i]
        self.events[i] = e + 1
        if self.record:
            self.trace[i].append((frame.f_code.co_filename[len(LIB):], frame.f_lineno))
        if self.plan.get(i) == e and not self.switched[i]:
            self.switched[i] = True
            j = self.other(i)
            if j is not None:
                self.baton[j].release()
                self.wait(i, j)

    def wait(self, i, j):
        """Until thread i may go on.  Where thread j cannot run before i does (i holds a lock) the schedule does not exist: i goes on."""
        while True:
            seen = self.events[j]
            if self.baton[i].acquire(timeout=0.15):
                return
            if self.events[j] == seen and not self.done[j]:
                self.blocked = True
                self.switched = [True] * len(self.fns)
                return

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.point(i, frame)
            return local

        def top(frame, event, arg):
            fn = frame.f_code.co_filename
            ours = self.code.get(fn)
            if ours is None:
                ours = self.code[fn] = os.path.realpath(fn).startswith(LIB)
            return local if ours else None
        return top

    def body(self, i):
        self.baton[i].acquire()
        sys.settrace(self.tracer(i))
        try:
            r = ("ok", self.fns[i]())
        except BaseException as e:  # noqa
            r = ("raised", engine.describe(e))
        finally:
            sys.settrace(None)
        self.result[i] = r
        self.done[i] = True
        j = self.other(i)
        if j is not None:
            self.baton[j].release()

    def run(self, first=0, record=False):
        self.record = record
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.baton[first].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                return False
        return True


def events(names):
    """Line events of each operation run alone, in a process of its own: [[file, line], ...]"""
    def go():
        out = []
        for n in names:
            s = Scheduler([operation(n)[0]], {})
            s.run(record=True)
            out.append(s.trace[0])
        return out
    return A.forked(go)


def one(names, plan, first):
    ops = [operation(n) for n in names]
    s = Scheduler([o[0] for o in ops], plan)
    if not s.run(first):
        return ["the threads did not finish"]
    out = []
    for i, n in enumerate(names):
        kind, r = s.result[i]
        out += ["thread %d (%s): %s" % (i, n, x) for x in (["raised " + r] if kind == "raised" else ops[i][1](r))]
    return out[:4]


@case
def interleave(p):
    """All given preemption points of thread 0 (and, for each, of thread 1), one process per schedule."""
    out = []
    for plan in p["plans"]:
        plan = {int(k): v for k, v in plan.items()}
        r = A.forked(lambda: one(p["ops"], plan, 0))
        if r:
            out += ["preemption %r: %s" % (plan, x) for x in r]
            if len(out) > 4:
                break
    return out


def visits(trace, n):
    """Event numbers of the first n visits of every source line."""
    seen, out = {}, []
    for i, loc in enumerate(trace):
        loc = tuple(loc)
        seen[loc] = seen.get(loc, 0) + 1
        if seen[loc] <= n:
            out.append(i)
    return out


def pairs(th):
    ks = [k for k in M.KINDS if k != "cdm" or th]
    for k in ks:
        size = "full" if k in ("oem", "aem", "tdm") else "min"
        for v in ("kread", "kwrite", "xread", "xwrite"):
            a = "%s %s %s 0" % (v, k, size)
            yield [a, "%s %s %s 5" % (v, k, size)]          # same operation, other data
    for a, b in (("kread oem full 0", "kread tdm full 0"), ("kread aem full 0", "kread oem full 0"), ("kread opm full 0", "kread apm full 0"),
                 ("kwrite aem full 0", "kwrite oem full 0"), ("kread omm full 0", "kwrite omm full 5"), ("xread opm min 0", "kread opm min 5"),
                 ("kwrite tdm full 0", "kread tdm full 5"), ("xwrite oem min 0", "xread aem min 0"), ("kread tdm full 0", "kread aem full 0"),
                 ("kwrite opm full 0", "xwrite opm full 5"), ("ksame oem full 0", "ksame oem full 0"), ("xsame opm full 0", "ksame opm full 0"),
                 ("ksame aem full 0", "xsame aem full 0"), ("ksame omm full 0", "ksame omm full 0"), ("xsame tdm full 0", "ksame tdm full 0"), ("xloc opm min 0", "xloc opm min 9"), ("xloc opm min 9", "xloc opm min 0"),
                 ("xloc oem full 0", "xloc oem full 5"), ("xfile opm min 0", "xfile opm min 5"), ("kfile opm min 0", "kfile opm min 5")):
        yield [a, b]
        if th:
            yield [b, a]


@prop("P21", "two threads with reader and writer objects of their own; all schedules with one preemption at the first 2 visits (thorough: all visits) of each "
             "source line of the library, the other thread running to its end; all schedules with two preemptions at a grid of 9 x 9 (thorough: 30 x 30) line visits; "
             "48 pairs of operations (writes of one tree by both threads, schema locations and files included)",
      ["switches inside the XML libraries are not explored", "schedules switch between lines, not inside them"])
def p21(run, th):
    ps = list(pairs(th))
    names = sorted({n for p in ps for n in p})
    ev = dict(zip(names, events(names)))
    if any(not e for e in ev.values()):
        raise engine.HarnessError("no events recorded for %r" % [n for n in names if not ev[n]])
    count = [0, 0]

    def block(plans, size=40):
        for i in range(0, len(plans), size):
            yield plans[i:i + size]

    def single():
        for p in ps:
            tr = ev[p[0]]
            pts = range(len(tr)) if th else visits(tr, 2)
            plans = [{0: e} for e in pts]
            count[0] += len(plans)
            for i, b in enumerate(block(plans)):
                yield p + ["1 preemption", i], {"ops": p, "plans": b}

    def double():
        for p in ps:
            a, b = visits(ev[p[0]], 1), visits(ev[p[1]], 1)
            n = 30 if th else 9
            a, b = a[::max(1, len(a) // n)], b[::max(1, len(b) // n)]
            plans = [{0: x, 1: y} for x in a for y in b]
            count[1] += len(plans)
            for i, bl in enumerate(block(plans)):
                yield p + ["2 preemptions", i], {"ops": p, "plans": bl}
    run.explore("one preemption", single(), interleave, chunk=1)
    run.explore("two preemptions", double(), interleave, chunk=1)
    run.states = run.transitions = run.traces = sum(count)
    run.notes["schedules"] = {"one preemption": count[0], "two preemptions": count[1]}
    run.notes["line_events"] = {n: len(e) for n, e in list(ev.items())[:12]}
