"""Symbolic side of the contract harness: explores all paths of a contract over the real code."""
import time, traceback, sys, copy
from fractions import Fraction
from . import sym, terms as tm, npmodel as npm, runtime as rt, stubs, api
from .sym import SNum, SBool, SArr, CArr, Unsupported, PathEnd, wrapn, wrapb, tof, tnum, isscalar
from .terms import num, var, app, IX, ite, eq, lt, le, and_, or_, not_, subst, TRUE, FALSE, ZERO

DERIVED = """v r rpro vpro mtot mmean rmean rmax rm r10 rmpro r10pro rorder rproorder rorder_origin lpro""".split()


def resolve(qual):
    """function object in the transformed code for clustertools.a.b.f or clustertools.a.b.C.m"""
    import importlib
    parts = qual.split(".")
    for k in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except ModuleNotFoundError:
            continue
        try:
            for p in parts[k:]:
                o = getattr(o, p)
        except AttributeError:
            raise Unsupported("no such function: " + qual)
        return o
    raise Unsupported("cannot resolve " + qual)


class SymS:
    symbolic = True
    tol = 0

    def __init__(self, contract, case):
        self.contract = contract
        self.case = case
        self.inputs = {}
        self.np = npm.NP
        self.pi = SNum(sym.PI)
        self.hooks = stubs.HOOKS
        self._snapn = 0
        self.loops = {}

    # ---- inputs
    def real(self, name, pos=False, lo=None, hi=None, nonneg=False, gen=None):
        t = var(name)
        if pos:
            tm.POS.add(name)
        self.inputs[name] = ("real", t)
        v = SNum(t)
        if nonneg:
            self.require(v >= 0)
        if lo is not None:
            self.require(v >= lo)
        if hi is not None:
            self.require(v <= hi)
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        t = var(name, "I")
        self.inputs[name] = ("int", t)
        v = SNum(t)
        if lo is not None:
            self.require(v >= lo)
        if hi is not None:
            self.require(v <= hi)
        return v

    def bool(self, name):
        t = var(name, "B")
        self.inputs[name] = ("bool", t)
        return SBool(t)

    def arr(self, name, n, pos=False, dt="f", lo=None, hi=None, nonneg=False, gen=None, increasing=False, scale=None):
        tn = tof(n)
        s = {"f": "R", "i": "I", "b": "B"}[dt]
        self.inputs[name] = ("arr", name, tn, s)
        e = app(name, [IX], s)
        if pos:
            tm.POS.add(name)
        if lo is not None or hi is not None or nonneg:
            def ax(args, name=name):
                t = app(name, args, s)
                out = []
                if nonneg:
                    out.append(le(num(0) if s == "I" else ZERO, t))
                if lo is not None:
                    out.append(le(tof(lo), t))
                if hi is not None:
                    out.append(le(t, tof(hi)))
                return out
            sym.AXIOMS[name] = ax
        if increasing:
            def pr(a, b, name=name):
                return [tm.implies(lt(a[0], b[0]), lt(app(name, a, s), app(name, b, s)))]
            sym.PAIR_AXIOMS[name] = pr
        if tn.op == "num":
            k = int(tn.args[0])
            return CArr([wrapb(app(name, [num(i)], s)) if s == "B" else wrapn(app(name, [num(i)], s)) for i in range(k)], dt)
        return SArr(tn, e, dt)

    def const(self, x):
        return Fraction(str(x)) if isinstance(x, (float, str)) else x

    q = const

    def choice(self, *a):
        raise Unsupported("choice")

    # ---- cluster
    def cluster(self, prefix="", units="pckms", origin="cluster", n=None, gen=None, binaries=None, **attrs):
        C = resolve("clustertools.cluster.cluster.StarCluster")
        p = prefix
        kw = {}
        c = C(units=units, origin=origin)
        n = self.int(p + "n", lo=1) if n is None else n
        for k in ("x", "y", "z", "vx", "vy", "vz"):
            setattr(c, k, self.arr(p + k, n))
        c.m = self.arr(p + "m", n, pos=True)
        c.id = npm.arange(n) if False else SArr(tof(n), app(p + "id", [IX], "I"), "i")
        self.inputs[p + "id"] = ("arr", p + "id", tof(n), "I")
        nm = p + "id"

        def inj(a, b):
            return [tm.implies(not_(eq(a[0], b[0])), not_(eq(app(nm, a, "I"), app(nm, b, "I"))))]
        sym.PAIR_AXIOMS[nm] = inj
        c.kw = SArr(tof(n), app(p + "kw", [IX], "I"), "i")
        self.inputs[p + "kw"] = ("arr", p + "kw", tof(n), "I")
        c.npop = SArr(tof(n), app(p + "npop", [IX], "I"), "i")
        self.inputs[p + "npop"] = ("arr", p + "npop", tof(n), "I")
        c.m0 = self.arr(p + "m0", n, pos=True)
        c.nb = 0
        c.ntot = n
        c.ns = n
        for k in ("tphys",):
            setattr(c, k, self.real(p + k))
        for k in ("xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"):
            setattr(c, k, self.real(p + k))
        for k in ("zmbar", "rbar", "vbar", "tbar"):
            setattr(c, k, self.real(p + k, pos=True))
        for k in ("rbar_su", "rbar_au", "tbar_days"):
            setattr(c, k, self.real(p + k, pos=True))
        for k in ("_ro", "_vo"):
            setattr(c, k, self.real(p + k.strip("_"), pos=True))
        c._zo = self.real(p + "zo")
        c._solarmotion = CArr([self.real(p + "sm%d" % i) for i in range(3)])
        # derived quantities: arbitrary
        for k in ("r", "v", "rpro", "vpro"):
            setattr(c, k, self.arr(p + "der_" + k, n))
        for k in ("mtot", "mmean", "rmean", "rmax", "rm", "r10", "rmpro", "r10pro"):
            setattr(c, k, self.real(p + "der_" + k))
        for k, v in attrs.items():
            setattr(c, k, v)
        return c

    def order(self, c, prefix=""):
        """give the cluster arbitrary sort orders (permutations)"""
        n = tof(c.ntot)
        for k in ("rorder", "rproorder"):
            tag = sym.perm_symbol(n, n, None, app(prefix + "okey_" + k, [IX]), "any")
            a = SArr(n, app(tag, [IX], "I"), "i", None, tag)
            a.tspace = (n, None)
            setattr(c, k, a)

    def snap(self, c):
        """immutable copy of the observable state"""
        class Old:
            pass
        o = Old()
        for k, v in c.__dict__.items():
            if isinstance(v, SArr):
                v = v.copy()
            elif isinstance(v, rt.VList):
                v = copy.copy(v)
            o.__dict__[k] = v
        return o

    # ---- logic
    def require(self, c):
        if isinstance(c, SArr):
            raise Unsupported("require on arrays")
        t = tof(c) if not isinstance(c, bool) else (TRUE if c else FALSE)
        sym.CTX.assume(t)

    def require_each(self, c):
        """array-valued assumption: holds at every element"""
        a = c.dense() if c.mask is not None else c
        v = var(sym.CTX.fresh("q"), "I")
        sym.CTX.forall.append((v.args[0], num(0), a.n, subst(a.e, {"_i0": v})))

    def require_pairs(self, name, n, f):
        """assumption on every pair of different indices, instantiated at the indices of input array `name`"""
        t = tof(n)

        vi, vj = var(sym.CTX.fresh("q"), "I"), var(sym.CTX.fresh("q"), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(and_(sym.in_rng(vi, t), sym.in_rng(vj, t), not_(eq(vi, vj))))
        g = tof(f(SNum(vi), SNum(vj)))
        sym.CTX.reset(m)

        def pr(a, b):
            i, j = a[0], b[0]
            return [tm.implies(and_(sym.in_rng(i, t), sym.in_rng(j, t), not_(eq(i, j))),
                               subst(g, {vi.args[0]: i, vj.args[0]: j}))]
        sym.PAIR_AXIOMS[name] = pr

    def ensure(self, label, c):
        if isinstance(c, CArr):
            for i, x in enumerate(c.items):
                self.ensure("%s[%d]" % (label, i), x)
            return
        if isinstance(c, SArr):
            k = var(sym.CTX.fresh("e"), "I")
            g = subst(c.e, {"_i0": k})
            m = sym.CTX.mark()
            sym.CTX.assume(sym.in_rng(k, c.n))
            if c.mask is not None:
                sym.CTX.assume(subst(c.mask, {"_i0": k}))
            try:
                sym.obligation(label, g)
            finally:
                sym.CTX.reset(m)
            return
        if isinstance(c, bool):
            if c:
                o = sym.Obl(label)
                o.status, o.backend = "proved", "trivial"
                sym.CTX.obls.append(o)
            else:
                sym.obligation(label, FALSE)
            return
        sym.obligation(label, tof(c))

    def eq(self, label, a, b, rtol=None, atol=None):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (isinstance(a, rt.VList) and a.segs is not None):
            if len(a) != len(b):
                return self.ensure(label + " (length)", False)
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq("%s[%d]" % (label, i), x, y)
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.ensure(label, a is b or (isinstance(a, str) and a == b))
        if isinstance(a, rt.VList):
            a = a.toarr()
        if isinstance(b, rt.VList):
            b = b.toarr()
        if isinstance(a, SArr) or isinstance(b, SArr):
            return self._eqarr(label, a, b)
        if not (isscalar(a) and isscalar(b)):
            return self.ensure(label, a is b)
        ta, tb = tof(a), tof(b)
        if ta.sort == "B" or tb.sort == "B":
            ta = ta if ta.sort == "B" else not_(eq(ta, num(0)))
            tb = tb if tb.sort == "B" else not_(eq(tb, num(0)))
        sym.obligation(label, eq(ta, tb))

    def _eqarr(self, label, a, b):
        if isinstance(a, CArr) and isinstance(b, CArr):
            if len(a.items) != len(b.items):
                return self.ensure(label + " (length)", False)
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                self.eq("%s[%d]" % (label, i), x, y)
            return
        if isscalar(b) or isscalar(a):
            if isscalar(a):
                a, b = b, a
            if not isinstance(a, SArr):
                return self.ensure(label, False)
            return self.ensure(label + " (array vs scalar)", False)
        if not (isinstance(a, SArr) and isinstance(b, SArr)):
            return self.ensure(label + " (kind)", False)
        a = a.tosarr() if isinstance(a, CArr) else a
        b = b.tosarr() if isinstance(b, CArr) else b
        if not (a.n is b.n and a.mask is b.mask):
            if sym.same_t(a.n, b.n) and sym.same_mask(a.mask, b.mask, a.n):
                pass
            else:
                ca, cb = a.count_t(), b.count_t()
                st = sym.obligation(label + " (length)", eq(ca, cb))
                if st.status != "proved":
                    return
                a, b = a.dense(), b.dense()
        k = var(sym.CTX.fresh("e"), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, a.n))
        if a.mask is not None:
            sym.CTX.assume(subst(a.mask, {"_i0": k}))
        ea, eb = subst(a.e, {"_i0": k}), subst(b.e, {"_i0": k})
        if (ea.sort == "B") != (eb.sort == "B"):
            ea, eb = a._num(ea), b._num(eb)
        try:
            sym.obligation(label, eq(ea, eb))
        finally:
            sym.CTX.reset(m)

    def define(self, obj, attr, value):
        """callee-contract use: the attribute is given by the contract"""
        setattr(obj, attr, value)

    def each(self, n):
        """arbitrary index 0<=k<n"""
        k = var(sym.CTX.fresh("k"), "I")
        m = sym.CTX.mark()
        t = tof(n)
        sym.CTX.assume(sym.in_rng(k, t))
        yield SNum(k)
        sym.CTX.reset(m)

    def implies(self, a, b):
        return wrapb(tm.implies(tof(a), tof(b)))

    def and_(self, *a):
        return wrapb(and_(*[tof(x) for x in a]))

    def or_(self, *a):
        return wrapb(or_(*[tof(x) for x in a]))

    def not_(self, a):
        return wrapb(not_(tof(a)))

    def ite(self, c, a, b):
        return wrapn(ite(tof(c), tnum(a), tnum(b)))

    def sqrt(self, x):
        return npm.sqrt(x)

    def sum(self, x):
        return npm.sum(x)

    def len(self, x):
        return rt.vlen(x)

    def fresh_arr(self, base, n, dt="f"):
        nm = "h_%s%d" % (base, next(sym.CTX.uid))
        s = {"f": "R", "i": "I", "b": "B"}[dt]
        return SArr(tof(n), app(nm, [IX], s), dt)

    def fresh_real(self, base):
        return SNum(var("h_%s%d" % (base, next(sym.CTX.uid))))

    def sum_of(self, n, f):
        """sum over k in [0,n) of f(k)"""
        k = var("_s%d" % next(sym.CTX.uid), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, tof(n)))
        b = tnum(f(SNum(k)))
        sym.CTX.reset(m)
        return wrapn(tm.mk_sum(tof(n), k, b))

    def array_of(self, n, f, dt="f"):
        """array of length n with elements f(k)"""
        k = var("_y%d" % next(sym.CTX.uid), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, tof(n)))
        v = f(SNum(k))
        sym.CTX.reset(m)
        t = tof(v)
        return SArr(tof(n), subst(t, {k.args[0]: IX}), "b" if t.sort == "B" else "i" if t.sort == "I" else "f")

    def map_rows(self, cols, f):
        """array over the rows of equally selected columns: element f(row values)"""
        a = cols[0]
        if isinstance(a, CArr):
            return CArr([f(*[c.items[k] for c in cols]) for k in range(len(a.items))], "f")
        for c in cols[1:]:
            if not (c.mask is a.mask and c.n is a.n):
                raise Unsupported("rows over differently selected columns")
        k = var("_y%d" % next(sym.CTX.uid), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, a.n))
        if a.mask is not None:
            sym.CTX.assume(subst(a.mask, {"_i0": k}))
        t = tnum(f(*[c.wrap(subst(c.e, {"_i0": k})) for c in cols]))
        sym.CTX.reset(m)
        return SArr(a.n, subst(t, {k.args[0]: IX}), "f", a.mask)

    # ---- ghost lemmas (trusted rules, stated in DESIGN.md; side conditions are obligations)
    def _fact(self, t):
        sym.CTX.assume(t)

    def lemma_sum_le(self, label, n, f, g):
        """forall 0<=k<n: f(k)<=g(k)  (obligation)   |-   sum f <= sum g"""
        k = var(sym.CTX.fresh("k"), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, tof(n)))
        o = sym.obligation(label + " (termwise)", le(tnum(f(SNum(k))), tnum(g(SNum(k)))))
        sym.CTX.reset(m)
        if o.status == "proved":
            self._fact(le(tnum(self.sum_of(n, f)), tnum(self.sum_of(n, g))))

    def lemma_sum_eq(self, label, n, f, g):
        """forall 0<=k<n: f(k)==g(k)  (obligation)   |-   sum f == sum g"""
        k = var(sym.CTX.fresh("k"), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, tof(n)))
        o = sym.obligation(label + " (termwise)", eq(tnum(f(SNum(k))), tnum(g(SNum(k)))))
        sym.CTX.reset(m)
        if o.status == "proved":
            self._fact(eq(tnum(self.sum_of(n, f)), tnum(self.sum_of(n, g))))

    def lemma_sum_lt(self, label, n, f, g, at):
        """termwise <= and strictly less at index `at`   |-   sum f < sum g"""
        k = var(sym.CTX.fresh("k"), "I")
        m = sym.CTX.mark()
        sym.CTX.assume(sym.in_rng(k, tof(n)))
        o = sym.obligation(label + " (termwise)", le(tnum(f(SNum(k))), tnum(g(SNum(k)))))
        sym.CTX.reset(m)
        o2 = sym.obligation(label + " (strict)", and_(sym.in_rng(tof(at), tof(n)), lt(tnum(f(at)), tnum(g(at)))))
        if o.status == "proved" and o2.status == "proved":
            self._fact(lt(tnum(self.sum_of(n, f)), tnum(self.sum_of(n, g))))

    def lemma_reindex(self, label, order, f):
        """order is a permutation of [0,n)   |-   sum_k f(order[k]) = sum_i f(i)"""
        pr = sym.perm_of(getattr(order, "tag", None))
        ok = pr is not None and pr["mask"] is None and order.mask is None and tm.prove_eq(pr["m"], pr["n"]) and tm.prove_eq(order.n, pr["n"]) \
            and order.e is sym.papp(order.tag, IX)
        self.ensure(label + " (order is a permutation)", bool(ok))
        if ok:
            n = SNum(pr["n"]) if pr["n"].op != "num" else wrapn(pr["n"])
            self._fact(eq(tnum(self.sum_of(n, lambda k: f(order[k]))), tnum(self.sum_of(n, f))))

    def lemma_split(self, label, n, j, f):
        """0<=j<=n   |-   sum_{k<j} f(k) = sum_{k<n} [k<j] f(k)"""
        o = sym.obligation(label + " (range)", and_(le(num(0), tof(j)), le(tof(j), tof(n))))
        if o.status == "proved":
            self._fact(eq(tnum(self.sum_of(j, f)), tnum(self.sum_of(n, lambda k: self.ite(k < j, 1, 0) * f(k)))))

    def others(self, n, k, f):
        """sum of f over all indices below n other than k"""
        return self.sum_of(n, lambda j: self.ite(j == k, 0, f(j)))

    def lemma_others(self, label, n, k, f):
        """0<=k<n   |-   sum over j<n, j!=k  =  sum over j<k  +  sum over k<j<n  =  the same with j<k inside [0,n-1)"""
        o = sym.obligation(label + " (range)", and_(le(num(0), tof(k)), lt(tof(k), tof(n))))
        if o.status == "proved":
            lo = self.sum_of(k, f)
            self._fact(eq(tnum(self.others(n, k, f)), tnum(lo + self.sum_of(n - 1 - k, lambda j: f(j + k + 1)))))
            self._fact(eq(tnum(lo), tnum(self.sum_of(n - 1, lambda j: self.ite(j < k, f(j), 0)))))

    def lemma_step(self, label, j, f):
        """0<=j   |-   sum_{k<j+1} f(k) = sum_{k<j} f(k) + f(j)"""
        o = sym.obligation(label + " (range)", le(num(0), tof(j)))
        if o.status == "proved":
            self._fact(eq(tnum(self.sum_of(j + 1, f)), tnum(self.sum_of(j, f) + f(j))))

    def is_sorting(self, label, order, key, n):
        """order is a permutation of [0,n) that sorts key"""
        c = sym.CTX
        if not isinstance(order, SArr):
            return self.ensure(label + " (is an index array)", False)
        self.eq(label + ": covers every star", wrapn(order.count_t()), n)
        k, l = var(c.fresh("k"), "I"), var(c.fresh("k"), "I")
        m = c.mark()
        c.assume(and_(le(num(0), k), lt(k, l), lt(l, tof(n))))
        ok, ol = tof(wrapn(order.at(k))), tof(wrapn(order.at(l)))
        sym.obligation(label + ": indices are stars", and_(sym.in_rng(ok, tof(n)), sym.in_rng(ol, tof(n))))
        sym.obligation(label + ": no star twice", not_(eq(ok, ol)))
        sym.obligation(label + ": ascending", le(tnum(key.wrap(key.at(ok))), tnum(key.wrap(key.at(ol)))))
        c.reset(m)

    def knn(self, cols, k):
        """(distances, indices) of the k nearest points of every point, itself first: k arrays each"""
        x = npm.column_stack(cols)
        d, a = stubs.KDTree(x).query(x, k=k)
        return d.cols, a.cols

    def witness_index(self, mask_arr):
        """index of the first true element (the path where there is none is excluded)"""
        a = npm.where(mask_arr)[0]
        self.require(wrapb(lt(num(0), a.count_t())))
        return a[0]

    # ---- calls
    def fn(self, qual):
        return resolve(qual)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = resolve(f)
        try:
            return f(*a, **k)
        except (PathEnd,):
            raise
        except Unsupported:
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [x for x in tb if "clustertools" in x.filename]
            loc = "%s:%s" % (where[-1].filename.split("clustertools/", 1)[-1], where[-1].name) if where else "?"
            o = sym.obligation("no exception (%s: %s at %s)" % (type(e).__name__, str(e)[:120], loc), FALSE)
            raise PathEnd()

    def raises(self, f, *a, **k):
        """exception type name or None"""
        try:
            (resolve(f) if isinstance(f, str) else f)(*a, **k)
            return None
        except (PathEnd, Unsupported):
            raise
        except Exception as e:
            return type(e).__name__

    def cover(self, name):
        sym.CTX.reached.add(name)


def run_case(contract, case, budget=None):
    """returns dict(obls=[...], paths, unsupported, reached...)"""
    t0 = time.time()
    out = dict(obls=[], paths=0, unsupported=[], entered=[], secs=0.0, completed=0, timeout=False)
    stack = [[]]
    rt.REG["active"] = list(contract.target)
    entered = set()
    used = set()
    while stack:
        sym.DEADLINE[0] = t0 + budget + 5 if budget else None
        if budget and time.time() - t0 > budget:
            out["timeout"] = True
            break
        dec = stack.pop()
        sym.reset_axioms()
        stubs.HOOKS.clear()
        stubs._KD.clear()
        sym._permkeys.clear()
        c = sym.Ctx(dec)
        sym.set_ctx(c)
        S = SymS(contract, case)
        rt.REG["S"] = S
        rt.REG["entered"] = entered
        rt.REG["used"] = used
        rt.REG["uses"] = {q: (lambda f, a, k, q=q, S=S: api.ABSTRACTIONS[q](S, a, k)) for q in contract.uses}
        try:
            contract.fn(S, **case)
            out["completed"] += 1
        except PathEnd:
            pass
        except Unsupported as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [x for x in tb if "/clustertools/" in x.filename]
            loc = "%s:%d" % (where[-1].filename.split("clustertools/", 1)[-1], where[-1].lineno) if where else \
                "%s:%d" % (tb[-1].filename, tb[-1].lineno)
            out["unsupported"].append("%s @ %s" % (e, loc))
        except tm.Blowup:
            out["unsupported"].append("normal form blow-up")
        except Exception as e:
            if __import__("os").environ.get("VT_TB"):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])
            out["unsupported"].append("harness error %s: %s @ %s:%d" % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno))
        out["paths"] += 1
        for o in c.obls:
            d = dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3))
            if o.status != "proved":
                d["detail"] = o.detail
                d["inputs"] = model_inputs(o, S) if o.status == "failed" else None
                d["pc"] = [tm.show(x)[:200] for x in o.pc[-8:]]
            out["obls"].append(d)
        stack.extend(c.frames[0].alts)
        if out["paths"] > 3000:
            out["unsupported"].append("too many paths")
            break
    sym.set_ctx(None)
    out["entered"] = sorted(entered)
    out["used"] = sorted(used)
    out["secs"] = time.time() - t0
    return out


def model_inputs(o, S):
    """concrete inputs from the counter-model (small sizes preferred)"""
    import z3
    terms = list(o.pc) + [not_(o.goal)]
    sizes = [t for k, t in ((k, v[1]) for k, v in S.inputs.items() if v[0] == "int")]
    m = o.model
    for cap in (3, 12, 60):
        r, mm = sym.solve(terms + [le(t, num(cap)) for t in sizes], timeout=2500)
        if r == "sat":
            m = mm
            break
    if m is None:
        return None
    env = {}

    def val(t):
        v = m.eval(tm.to_z3(t, env), model_completion=True)
        return zval(v)
    out = {}
    try:
        for k, v in S.inputs.items():
            if v[0] in ("real", "int", "bool"):
                out[k] = val(v[1])
            else:
                n = val(v[2])
                if isinstance(n, int) and 0 <= n <= 3000:
                    out[k] = [val(app(v[1], [num(i)], v[3])) for i in range(min(n, 400))]
                    if n > 400:
                        out.pop(k)
    except Exception as e:
        out["_error"] = repr(e)
    return out


def zval(v):
    import z3
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def _ext(self, name):
    """contract model of a dependency function"""
    mod, fn = name.rsplit(".", 1)
    if mod == "galpy.util.conversion":
        return getattr(stubs.conversion, fn)
    if mod == "galpy.util.coords":
        return getattr(stubs.coords, fn)
    raise Unsupported("no model of " + name)


SymS.ext = _ext
