"""Contract registry.  Contract files are plain Python, run symbolically (proof) and concretely (replay)."""
import importlib, pkgutil, os, itertools

CONTRACTS = []
ABSTRACTIONS = {}
PROVIDERS = {}      # callee -> names of the contracts that verify its abstraction
ASSUMED = {}        # callee -> why its contract is assumed
PROPS_LOADED = set()


class Contract:
    def __init__(self, name, prop, target, cases, fn, uses, mode, trials, doc, timeout, bound, cost=1):
        self.name, self.prop, self.target, self.cases, self.fn = name, prop, target, cases, fn
        self.uses, self.mode, self.trials, self.doc, self.timeout = uses, mode, trials, doc, timeout
        self.bound = bound
        self.cost = cost


def product(**kw):
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


def contract(prop, target, cases=None, uses=(), mode="proof", trials=6, timeout=150, name=None, bound=None, cost=1):
    """mode: 'proof' (symbolic, deciding; concrete runs are the CPython cross-check and replay search)
             'bounded' (executable contract on the real code only, never counted as proved)"""
    def deco(f):
        c = Contract(name or f.__name__, prop if isinstance(prop, (list, tuple)) else [prop],
                     [target] if isinstance(target, str) else list(target),
                     cases or [{}], f, list(uses), mode, trials, f.__doc__ or "", timeout, bound, cost)
        CONTRACTS.append(c)
        return f
    return deco


def abstraction(qual, by=(), assumed=None):
    """callee contract: fn(S, args, kwargs) -> return value; havocs/defines what the callee may change"""
    def deco(f):
        ABSTRACTIONS[qual] = f
        PROVIDERS[qual] = list(by)
        if assumed:
            ASSUMED[qual] = assumed
        return f
    return deco


INVARIANTS = {}


def invariant(where, define=None):
    """loop invariant of the k-th `while` of a function ("qualified.name#k"): fn(S, L, L0, phase, mem) -> [(label, condition)] over the
    loop variables L (L0: their values on entry); `define` gives variables as functions of the others"""
    def deco(f):
        INVARIANTS[where] = dict(fn=f, define=define or {})
        return f
    return deco


def load_all():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py") and not fn.startswith("_"):
            importlib.import_module("contracts." + fn[:-3])
    return CONTRACTS


def for_prop(p):
    load_all()
    return [c for c in CONTRACTS if p in c.prop]


def key(c, i):
    return "%s[%d]" % (c.name, i)
