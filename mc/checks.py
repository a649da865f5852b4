"""Registry of the property checks."""
PROPS = {}
BASE_ASSUMPTIONS = [
    "the vocabulary frozen in spec/ndm_spec.json (extracted from the published object model) is the intended one",
    "Python, xsdata, lxml and expat behave as installed",
]


class Spec:
    def __init__(self, fn, bounds, assumptions):
        self.fn, self.bounds, self.assumptions = fn, bounds, BASE_ASSUMPTIONS + list(assumptions)


def prop(pid, bounds, assumptions=()):
    def deco(fn):
        PROPS[pid] = Spec(fn, bounds, assumptions)
        return fn
    return deco


from . import checks_doc, checks_ndm, checks_text, checks_api, sched  # noqa: E402,F401
