"""Contracts (trusted models) of the numpy functions used by clustertools."""
import numpy as _np
import builtins as _bi
from fractions import Fraction
from . import sym, terms as tm
from .sym import (SNum, SBool, SArr, CArr, SArr2, Unsupported, wrapn, wrapb, tof, tnum, isscalar, dt_of)
from .terms import (num, var, app, IX, ite, eq, lt, le, and_, or_, not_, subst, TRUE, FALSE, ZERO, ONE,
                    add, sub, mul, div, neg, powr)


class ndarray:
    pass


class Rows:
    """2-D array given by its rows (concrete number of rows)"""
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, rows):
        self.rows = list(rows)
        self.birth = next(sym._birth)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.rows[k]
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, int):
                return self.rows[a][b]
            if isinstance(a, slice):
                rr = self.rows[a]
                if isinstance(b, int):
                    return asarr([r[b] for r in rr])
                return Rows([r[b] for r in rr])
        if isinstance(k, slice):
            return Rows(self.rows[k])
        raise Unsupported("2-D index")

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    @property
    def T(self):
        return Cols(self.rows)

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].size)

    def _m(self, f):
        return Rows([f(r) for r in self.rows])

    def __mul__(self, o):
        if isscalar(o):
            return self._m(lambda r: r * o)
        raise Unsupported("2-D mul")
    __rmul__ = __mul__

    def __pow__(self, o):
        return self._m(lambda r: r ** o)


class Cols:
    """2-D array given by its columns (concrete number of columns)"""
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, cols):
        self.cols = list(cols)
        self.birth = next(sym._birth)

    @property
    def T(self):
        return Rows(self.cols)

    @property
    def shape(self):
        return (self.cols[0].size, len(self.cols))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(b, int):
                c = self.cols[b]
                return c if a == slice(None) else c[a]
            if isinstance(b, slice):
                cs = self.cols[b]
                if a == slice(None):
                    return Cols(cs)
                if isinstance(a, SArr):
                    return Cols([c[a] for c in cs])
                return asarr([c[a] for c in cs])
        if isinstance(k, (SArr, slice)):
            return Cols([c[k] for c in self.cols])
        return CArr([c[k] for c in self.cols])


def asarr(x):
    from .runtime import VList, VRange, ListArr
    if isinstance(x, ListArr):
        return x.copy()
    if isinstance(x, SArr):
        return x
    if isinstance(x, (SArr2, Rows, Cols)):
        return x
    if isinstance(x, VList) and x.segs is not None:
        segs = x.segs
        if _bi.all(k == "c" for k, _ in segs):
            return CArr([v for _, v in segs])
        out = None
        buf = []
        for k, v in segs:
            if k == "c":
                buf.append(v)
                continue
            if buf:
                b = CArr(buf)
                out = b if out is None else append(out, b)
                buf = []
            a = v.arr()
            out = a if out is None else append(out, a)
        if buf:
            out = append(out, CArr(buf))
        return out
    if isinstance(x, (list, tuple)):
        its = list(list.__iter__(x)) if isinstance(x, list) else list(x)
        if _bi.all(isscalar(i) for i in its):
            return CArr([i for i in its])
        if _bi.any(i is None or isinstance(i, str) for i in its):
            return OArr(its)
        rows = [asarr(i) for i in its]
        if _bi.all(isinstance(r, SArr) for r in rows):
            if _bi.all(isinstance(r, CArr) and len(r.items) == 1 for r in rows):
                pass
            return Rows(rows)
        raise Unsupported("nested array")
    if isinstance(x, VRange):
        lo, hi = x.lo, x.hi
        n = sym.sub2(hi, lo)
        if n.op == "num":
            return CArr([wrapn(add(lo, num(i))) for i in range(int(n.args[0]))], "i")
        return SArr(n, add(IX, lo), "i")
    if isscalar(x):
        return x
    raise Unsupported("asarray(%r)" % type(x))


class OArr(list):
    """object array (holds None / strings)"""
    @property
    def dtype(self):
        return "object"


def is_arr(x):
    return isinstance(x, (SArr, SArr2))


def ufunc1(f, dt="f"):
    def g(x, *a, **k):
        if a or k:
            if set(k) - {"dtype"}:
                raise Unsupported("ufunc extra arguments")
        if isinstance(x, (list, tuple)):
            x = asarr(x)
        if isinstance(x, CArr):
            return CArr([wrapb(t) if t.sort == "B" else wrapn(t) for t in (f(tnum(i)) for i in x.items)], dt)
        if isinstance(x, SArr):
            return x.like(f(x._num(x.e)), dt)
        if isinstance(x, SArr2):
            return SArr2(nr=x.nr, nc=x.nc, e=f(x.e), dt=dt)
        if isinstance(x, Rows):
            return Rows([g(r) for r in x.rows])
        if isscalar(x):
            if isinstance(x, float) and (x != x):
                return x
            r = f(tnum(x))
            return wrapb(r) if r.sort == "B" else wrapn(r)
        raise Unsupported("ufunc on %r" % type(x))
    return g


def ufunc2(f, dt="f"):
    def g(a, b, *rest):
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        if isinstance(b, (list, tuple)):
            b = asarr(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            if isinstance(a, CArr) or isinstance(b, CArr):
                x, y = (a, b)
                if isinstance(a, CArr) and (isinstance(b, CArr) or isscalar(b)):
                    return a._map2(b, lambda p, q: wr(f(tnum(p), tnum(q))), dt)
                if isinstance(b, CArr) and isscalar(a):
                    return b._map2(a, lambda p, q: wr(f(tnum(q), tnum(p))), dt)
            if isinstance(a, SArr):
                t = a._coerce(b)
                if t is None:
                    raise Unsupported("ufunc2")
                return a.like(f(a._num(a.e), a._num(t)), dt)
            return b.like(f(b._num(tof(a)), b._num(b.e)), dt)
        if isinstance(a, SArr2) or isinstance(b, SArr2):
            if isinstance(a, SArr2):
                return a._op(b, f)
            return b._op(a, f, True)
        return wr(f(tnum(a), tnum(b)))
    return g


def wr(t):
    return wrapb(t) if t.sort == "B" else wrapn(t)


def t_sqrt(t):
    return powr(t, Fraction(1, 2))


def trig(name):
    def f(t):
        if t.op == "num" and t.args[0] == 0:
            return {"sin": ZERO, "cos": ONE, "tan": ZERO}[name]
        if t.op == "ite":
            return ite(t.args[0], f(t.args[1]), f(t.args[2]))
        if name == "tan":
            return div(trig("sin")(t), trig("cos")(t))
        if t.op == "app" and t.args[0] == "arctan2":
            y, x = t.args[1], t.args[2]
            rad = t_sqrt(add(powr(x, 2), powr(y, 2)))
            # arctan2(0,0)=0
            z = and_(eq(x, ZERO), eq(y, ZERO))
            if name == "cos":
                return ite(z, ONE, div(x, rad))
            return ite(z, ZERO, div(y, rad))
        if t.op == "app" and t.args[0] == "arccos":
            u = t.args[1]
            if name == "cos":
                return u
            return t_sqrt(sub(ONE, powr(u, 2)))
        if t.op == "app" and t.args[0] == "arcsin":
            u = t.args[1]
            if name == "sin":
                return u
            return t_sqrt(sub(ONE, powr(u, 2)))
        if t.op == "app" and t.args[0] == "arctan":
            u = t.args[1]
            d = t_sqrt(add(ONE, powr(u, 2)))
            return div(ONE, d) if name == "cos" else div(u, d)
        if t.op == "*" and t.args[0].op == "num" and t.args[0].args[0] < 0:
            p = mul(num(-t.args[0].args[0]), *t.args[1:])
            return f(p) if name == "cos" else neg(f(p))
        if name == "cos":
            pass
        return app(name, [t])
    return f


def t_log(t):
    if t.op == "num" and t.args[0] == 1:
        return ZERO
    return app("log", [t])


def t_log10(t):
    if t.op == "num":
        v = t.args[0]
        for k in range(-12, 13):
            if v == Fraction(10) ** k:
                return num(Fraction(k))
    if t.op == "app" and t.args[0] == "pow10":
        return t.args[1]
    return app("log10", [t])


def t_exp(t):
    return ONE if t.op == "num" and t.args[0] == 0 else app("exp", [t])


def t_min(a, b):
    return ite(le(a, b), a, b)


def t_max(a, b):
    return ite(le(a, b), b, a)


def t_sign(t):
    return ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), num(Fraction(-1)), ZERO))


sqrt = ufunc1(t_sqrt)
sin, cos, tan = ufunc1(trig("sin")), ufunc1(trig("cos")), ufunc1(trig("tan"))
arctan2 = ufunc2(lambda y, x: app("arctan2", [y, x]))
def t_arctan(u):
    return ZERO if u.op == "num" and u.args[0] == 0 else app("arctan", [u])


arctan = ufunc1(t_arctan)
arccos = ufunc1(lambda u: app("arccos", [u]))
arcsin = ufunc1(lambda u: app("arcsin", [u]))
log, log10, exp = ufunc1(t_log), ufunc1(t_log10), ufunc1(t_exp)
fabs = ufunc1(sym.tabs)
sign = ufunc1(t_sign)
radians = ufunc1(lambda t: mul(t, div(sym.PI, num(Fraction(180)))))
degrees = ufunc1(lambda t: mul(t, div(num(Fraction(180)), sym.PI)))
floor = ufunc1(lambda t: mul(ONE, tm.floor(t)))
ceil = ufunc1(lambda t: mul(ONE, neg(tm.floor(neg(t)))))
isnan = ufunc1(lambda t: FALSE, "b")
isinf = ufunc1(lambda t: FALSE, "b")
isfinite = ufunc1(lambda t: TRUE, "b")
maximum, minimum = ufunc2(t_max), ufunc2(t_min)
hypot = ufunc2(lambda a, b: t_sqrt(add(powr(a, 2), powr(b, 2))))


def _as1(x):
    x = asarr(x)
    if isinstance(x, Rows):
        raise Unsupported("2-D reduction")
    return x


def unperm(a):
    """(n, var, e, mask) of the base space when a is a permuted/compressed array"""
    if a.tag is None or sym.perm_of(a.tag) is None:
        return None
    pr = sym.perm_of(a.tag)
    pk = sym.papp(a.tag, IX)
    if not (sym.same_t(a.n, pr["m"])):
        return None
    v = var("_u", "I")

    def rw(t):
        if t is pk:
            return v
        return None
    e = tm.map_terms(a.e, rw)
    m = tm.map_terms(a.mask, rw) if a.mask is not None else TRUE
    if "_i0" in e.fv or "_i0" in m.fv:
        return None
    bm = subst(pr["mask"], {"_i0": v}) if pr["mask"] is not None else TRUE
    return pr["n"], v, e, and_(bm, m)


def sum_t(a):
    if isinstance(a, CArr):
        ts = [tnum(x) for x in a.items]
        return add(*ts) if ts else ZERO
    if a.parts is not None and a.mask is None:
        return add(*[sum_t(p) for p in a.parts])
    if a.dt == "b" and a.mask is None and a.e.sort == "B" and unperm(a) is None:
        return sym.toint(tm.mk_sum(a.n, IX, a._num(sym.canon_mask(a.n, a.e))))
    e = a._num(a.e)
    u = unperm(a)
    if u is not None:
        n, v, e2, m = u
        r = tm.mk_sum(n, v, a._num(e2), None if m is TRUE else m)
    else:
        r = tm.mk_sum(a.n, IX, e, a.mask)
    return sym.toint(r) if (a.dt in "ib") else r


def sum(x, axis=None, **k):
    if isinstance(x, Rows):
        if axis == 0:
            r = x.rows[0]
            for y in x.rows[1:]:
                r = r + y
            return r
        if axis == 1:
            return CArr([sum(r) for r in x.rows])
        r = 0
        for y in x.rows:
            r = r + sum(y)
        return r
    if isinstance(x, Cols):
        if axis == 1:
            return sum(Rows(x.cols), axis=0)
        r = [sum(c) for c in x.cols]
        return CArr(r) if axis == 0 else sum(CArr(r))
    if isinstance(x, SArr2):
        if axis == 1:
            return SArr(x.nr, tm.mk_sum(x.nc, tm.IX1, x.e))
        if axis == 0:
            y = x.T
            return SArr(y.nr, tm.mk_sum(y.nc, tm.IX1, y.e))
        raise Unsupported("2-D sum")
    a = _as1(x)
    if isscalar(a):
        return a
    if axis not in (None, 0, -1):
        raise ValueError("axis out of bounds")
    return wrapn(sum_t(a))


def count(a):
    return a.count_t()


def mean(x, axis=None, **k):
    if isinstance(x, Rows) and axis in (0, 1):
        if axis == 1:
            return CArr([mean(r) for r in x.rows])
        s = sum(x, axis=0)
        return s / Fraction(len(x.rows))
    a = _as1(x)
    if isscalar(a):
        return a
    return wrapn(div(sum_t(a), count(a)))


def var_(x, **k):
    a = _as1(x)
    m = mean(a)
    d = a - m
    return wrapn(div(sum_t(d * d), count(a)))


def std(x, **k):
    if k:
        raise Unsupported("std kwargs")
    v = var_(x)
    return wrapn(t_sqrt(tof(v)))


def average(x, axis=None, weights=None):
    a = _as1(x)
    if weights is None:
        return mean(a)
    w = _as1(weights)
    return wrapn(div(sum_t(a * w), sum_t(w)))


def _nonempty(a, what):
    c = a.count_t()
    if not sym.CTX.branch(lt(num(0), c)):
        raise ValueError("zero-size array to reduction operation %s which has no identity" % what)


def _ext(x, kind):
    a = _as1(x)
    if isscalar(a):
        return a
    if isinstance(a, CArr):
        if not a.items:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % kind)
        r = tnum(a.items[0])
        for y in a.items[1:]:
            r = t_min(r, tnum(y)) if kind == "min" else t_max(r, tnum(y))
        return wrapn(r)
    _nonempty(a, "minimum" if kind == "min" else "maximum")
    b = SArr(a.n, a._num(a.e), a.dt, a.mask)
    w = sym.arg_ext(b, kind)
    return wrapn(subst(b.e, {"_i0": w}))


def min(x, axis=None):
    return _ext(x, "min")


def max(x, axis=None):
    return _ext(x, "max")


def _argext(x, kind):
    a = _as1(x)
    if isinstance(a, CArr):
        a = a.tosarr()
    _nonempty(a, "arg" + kind)
    a = a.dense()
    return wrapn(sym.arg_ext(SArr(a.n, a._num(a.e), a.dt), kind))


def argmin(x, axis=None):
    return _argext(x, "min")


def argmax(x, axis=None):
    return _argext(x, "max")


def argsort(x, **k):
    if k.get("kind") not in (None, "mergesort", "quicksort", "stable", "heapsort"):
        raise Unsupported("argsort kind")
    a = _as1(x)
    if isinstance(a, CArr):
        if len(a.items) <= 1:
            return CArr(list(range(len(a.items))), "i")
        a = a.tosarr()
    m = a.count_t()
    tag = sym.perm_symbol(m, a.n, a.mask, a._num(a.e), "sort")
    r = SArr(m, sym.papp(tag, IX), "i", None, tag)
    r.tspace = (a.n, a.mask)
    return r


def sort(x, **k):
    a = _as1(x)
    return a[argsort(a)]


def cumsum(x, axis=None):
    a = _as1(x)
    if isinstance(a, CArr):
        out, s = [], 0
        for y in a.items:
            s = s + y
            out.append(s)
        return CArr(out, a.dt)
    a = a.dense()
    v = var("_u", "I")
    e = subst(a._num(a.e), {"_i0": v})
    S = tm.mk_sum(add(IX, num(1)), v, e)
    return SArr(a.n, S, "f" if a.dt == "f" else "i", None, a.tag)


def any(x):
    a = _as1(x)
    if isscalar(a):
        return wrapb(not_(eq(tnum(a), num(0)))) if not isinstance(a, (bool, SBool)) else a
    b = a if a.dt == "b" else (a != 0)
    return wrapb(lt(num(0), sym.toint(sum_t(b))))


def all(x):
    a = _as1(x)
    if isscalar(a):
        return a
    b = a if a.dt == "b" else (a != 0)
    return wrapb(eq(sym.toint(sum_t(~b)), num(0)))


def array_equal(a, b):
    a, b = _as1(a), _as1(b)
    if isscalar(a) or isscalar(b):
        return wrapb(eq(tnum(a), tnum(b)))
    ca, cb = a.count_t(), b.count_t()
    if not sym.CTX.branch(eq(ca, cb)):
        return False
    if isinstance(a, CArr) and isinstance(b, CArr):
        return wrapb(and_(*[eq(tnum(p), tnum(q)) for p, q in zip(a.items, b.items)]))
    ad, bd = a.dense(), b.dense()
    nb = SArr(ad.n, not_(eq(ad._num(ad.e), bd._num(bd.e))), "b")
    return wrapb(eq(sym.toint(sum_t(nb)), num(0)))


def _n(n):
    if isinstance(n, tuple):
        if len(n) == 1:
            return _n(n[0])
        return None
    if isinstance(n, CArr) and len(n.items) == 1:
        return _n(n.items[0])
    t = tof(n)
    if t.sort != "I":
        raise TypeError("'float' object cannot be interpreted as an integer")
    return t


def full(n, v, dtype=None):
    if isinstance(n, tuple) and len(n) == 2:
        if isinstance(n[0], int) and n[0] <= 16:
            return Rows([full(n[1], v, dtype) for _ in range(n[0])])
        if isinstance(n[1], int) and n[1] <= 16:
            return Cols([full(n[0], v, dtype) for _ in range(n[1])])
        raise Unsupported("2-D allocation")
    t = _n(n)
    dt = dtcode(dtype) if dtype is not None else dt_of([v])
    if dt == "b":
        v = bool(v)
    elif dt == "f" and isinstance(v, int):
        v = Fraction(v)
    if t.op == "num":
        return CArr([v] * int(t.args[0]), dt)
    sym.CTX.assume(le(num(0), t)) if sym.quick(le(num(0), t), sym.CTX.pcset) is TRUE else _nonneg(t)
    return SArr(t, tof(v), dt)


def _nonneg(t):
    if not sym.CTX.branch(le(num(0), t)):
        raise ValueError("negative dimensions are not allowed")


def dtcode(d):
    from . import runtime as rt
    if d in ("bool", "bool_") or d is rt.vbool or d is bool:
        return "b"
    if d in ("int", "int64", "int32", "i8", "i4") or d is rt.vint or d is int:
        return "i"
    if d in ("float", "float64", "float32", "f8") or d is rt.vfloat or d is float:
        return "f"
    raise Unsupported("dtype %r" % (d,))


def zeros(n, dtype=None, **k):
    return full(n, Fraction(0), dtype)


def ones(n, dtype=None, **k):
    return full(n, Fraction(1), dtype)


def empty(n, dtype=None):
    return full(n, Fraction(0), dtype)


def zeros_like(a, dtype=None):
    if isinstance(a, CArr):
        return CArr([Fraction(0)] * len(a.items), a.dt)
    return a.like(FALSE if a.dt == "b" else ZERO)


def ones_like(a, dtype=None):
    if isinstance(a, CArr):
        return CArr([Fraction(1)] * len(a.items), a.dt)
    return a.like(TRUE if a.dt == "b" else ONE)


def arange(*a, **k):
    k.pop("dtype", None)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi, st = tof(lo), tof(hi), tof(st)
    d = sub(hi, lo)
    if st.op == "num" and st.args[0] == 1 and lo.sort == "I" and hi.sort == "I":
        n = sym.sub2(hi, lo)
    else:
        n = neg(tm.floor(neg(div(d, st))))        # ceil((hi-lo)/step)
        p = tm.norm(n)
        n = tm.p2int(p) if p.const() is not None else simp_ceil(d, st, n)
    if n.op == "num":
        return CArr([wrapn(add(lo, mul(num(i), st))) for i in range(_py_max(0, int(n.args[0])))])
    if not sym.CTX.branch(le(num(0), n)):
        return CArr([], "i")
    e = add(lo, mul(IX, st))
    return SArr(n, e, "i" if e.sort == "I" else "f")


def simp_ceil(d, st, n):
    """ceil(d/st) when d = st*q - r with 0<=r<st for integer terms"""
    if d.sort == "I" and st.op == "num" and st.sort == "I":
        p = tm.norm(d)
        s = st.args[0]
        if s > 0 and _np.all([(c / s).denominator == 1 for m, c in p.d.items() if m != ()]):
            c0 = p.d.get((), Fraction(0))
            q = {m: c / s for m, c in p.d.items() if m != ()}
            import math
            q[()] = Fraction(math.ceil(c0 / s))
            return tm.p2int(tm.Poly(q))
    return n


def _py_max(a, b):
    return a if a > b else b


def linspace(a, b, n=50, endpoint=True, retstep=False, **k):
    a, b = tnum(a), tnum(b)
    t = _n(n)
    if not endpoint or retstep:
        raise Unsupported("linspace options")
    step = div(sub(b, a), sub(t, num(1)))
    if t.op == "num":
        m = int(t.args[0])
        if m == 1:
            return CArr([wrapn(a)], "f")
        return CArr([wrapn(add(a, mul(num(i), step))) for i in range(m)], "f")
    _nonneg(t)
    return SArr(t, ite(eq(t, num(1)), a, add(a, mul(IX, step))) if sym.quick(lt(num(1), t), sym.CTX.pcset) is not TRUE else add(a, mul(IX, step)), "f")


def logspace(a, b, n=50, **k):
    x = linspace(a, b, n)
    return ufunc1(lambda t: app("pow10", [t]))(x)


def append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is not None:
        raise Unsupported("append axis")
    if isscalar(a):
        a = CArr([a])
    if isscalar(b):
        b = CArr([b])
    if isinstance(a, OArr) or isinstance(b, OArr):
        return OArr(list(a) + list(b))
    if isinstance(a, CArr) and isinstance(b, CArr):
        if not a.items and a.dt == "f":
            return CArr(b.items, "f" if b.dt in "i" else b.dt if b.dt != "b" else "f")
        return CArr(a.items + b.items)
    if isinstance(a, CArr) and not a.items:
        r = b.dense().copy()
        if a.dt == "f":
            r.dt = "f" if r.dt != "b" else "f"
            r.e = r._num(r.e)
        return r
    if isinstance(b, CArr) and not b.items:
        return a.dense().copy()
    if isinstance(a, CArr):
        a = a.tosarr()
    if isinstance(b, CArr):
        b = b.tosarr()
    a, b = a.dense(), b.dense()
    ea, eb = a.e, subst(b.e, {"_i0": sub(IX, a.n)})
    if ea.sort == "B" and eb.sort == "B":
        e, dt = or_(and_(lt(IX, a.n), ea), and_(le(a.n, IX), eb)), "b"
    else:
        e = ite(lt(IX, a.n), a._num(ea), a._num(eb))
        dt = "f" if "f" in (a.dt, b.dt) else "i"
    r = SArr(add(a.n, b.n), e, dt)
    r.parts = (a.parts or (a.copy(),)) + (b.parts or (b.copy(),))
    return r


def concatenate(xs, axis=0):
    xs = list(xs)
    r = asarr(xs[0])
    for x in xs[1:]:
        r = append(r, x)
    return r


hstack = concatenate


def array(x, dtype=None, **k):
    a = asarr(x)
    if isinstance(a, SArr):
        a = a.copy()
        if dtype is not None:
            return astype(a, dtype)
        return a
    return a


def asarray(x, dtype=None, **k):
    a = asarr(x)
    if dtype is not None and isinstance(a, SArr) and dtcode(dtype) != a.dt:
        return astype(a, dtype)
    return a


def atleast_1d(x):
    a = asarr(x)
    return CArr([a]) if isscalar(a) else a


def astype(a, k):
    dt = dtcode(k)
    if dt == a.dt:
        return a.copy()
    if isinstance(a, CArr):
        if dt == "b":
            return CArr([wrapb(not_(eq(tnum(x), num(0)))) for x in a.items], "b")
        if dt == "i":
            from .runtime import trunc
            return CArr([wrapn(trunc(tnum(x))) for x in a.items], "i")
        return CArr([wrapn(tnum(x)) if not isinstance(x, int) else Fraction(int(x)) for x in a.items], "f")
    if dt == "b":
        return a.like(not_(eq(a.e, num(0))), "b")
    if dt == "i":
        from .runtime import trunc
        return a.like(trunc(a._num(a.e)), "i")
    return a.like(a._num(a.e), "f")


def where(c, a=None, b=None):
    c = asarr(c)
    if a is None:
        if isinstance(c, CArr):
            c = c.tosarr()
        if c.dt != "b":
            c = c != 0
        if c.mask is not None:
            raise Unsupported("where on masked array")
        r = SArr(c.n, IX, "i", c.e)
        r.tspace = (c.n, None)
        return (r,)
    if isscalar(c):
        return wrapn(ite(tof(c), tnum(a), tnum(b)))
    if isinstance(c, CArr):
        c = c.tosarr()
    ta, tb = c._coerce(asarr(a)), c._coerce(asarr(b))
    e = ite(c.e, c._num(ta), c._num(tb))
    return c.like(e, "f" if e.sort == "R" else "i")


class ColIdx:
    """result of argwhere on a 1-D array: shape (count, 1)"""

    def __init__(self, r):
        self.r = r

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if k[1] != 0:
                raise IndexError("index out of bounds")
            return self.r[k[0]]
        if isinstance(k, (int, SNum)):
            return CArr([self.r[k]], "i")
        raise Unsupported("argwhere index")

    def flatten(self):
        return self.r

    @property
    def T(self):
        return [self.r]

    def __len__(self):
        raise Unsupported("len(argwhere)")


def argwhere(c):
    return ColIdx(where(c)[0])


def isin(a, b, **k):
    a = asarr(a)
    b = asarr(b)
    if isinstance(b, CArr):
        if isinstance(a, CArr):
            return CArr([wrapb(or_(*[eq(tnum(x), tnum(y)) for y in b.items])) for x in a.items], "b")
        return a.like(or_(*[eq(a._num(a.e), tnum(y)) for y in b.items]), "b")
    v = var("_u", "I")
    be = subst(b._num(b.e), {"_i0": v})
    bm = subst(b.mask, {"_i0": v}) if b.mask is not None else TRUE
    if isinstance(a, CArr):
        a = a.tosarr()
    c = tm.mk_sum(b.n, v, ite(and_(bm, eq(be, a._num(a.e))), num(1), num(0)))
    return a.like(lt(num(0), sym.toint(c)), "b")


def dot(a, b):
    if isinstance(a, Rows) or isinstance(b, (Rows, Cols)):
        return matmul(a, b)
    return sum(asarr(a) * asarr(b))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if isinstance(a, Rows) and isinstance(b, Rows):
        out = []
        for r in a.rows:
            s = None
            for j, q in enumerate(b.rows):
                t = q * r[j]
                s = t if s is None else s + t
            out.append(s)
        return Rows(out)
    if isinstance(a, Rows) and isinstance(b, CArr):
        return CArr([sum(r * b) for r in a.rows])
    raise Unsupported("matmul")


def cross(a, b):
    a, b = asarr(a), asarr(b)
    if isinstance(a, CArr):
        x, y = a.items, b.items
        return CArr([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
    if isinstance(a, Cols):
        x, y = a.cols, b.cols
        return Cols([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
    raise Unsupported("cross")


def column_stack(xs):
    cols = [asarr(x) for x in xs]
    out = []
    for c in cols:
        if isinstance(c, Cols):
            out += c.cols
        else:
            out.append(c)
    return Cols(out)


def vstack(xs):
    return Rows([asarr(x) for x in xs])


def interp_opaque(name, *arrs):
    return opaque(name, arrs)


_opk = {}


def opaque(name, args, sort="R"):
    """uninterpreted result of a dependency, a function of (the contents of) its arguments"""
    keys = []
    full_ = []
    for a in args:
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        if isinstance(a, SArr):
            if isinstance(a, CArr):
                full_ += [tnum(x) for x in a.items]
                keys.append(("c", len(a.items)))
                continue
            v = subst(a._num(a.e), {"_i0": tm.BV})
            m = subst(a.mask, {"_i0": tm.BV}) if a.mask is not None else TRUE
            full_ += [a.n, ite(m, ONE, ZERO), v]
            keys.append("a")
        elif isscalar(a):
            full_.append(tnum(a))
            keys.append("s")
        else:
            keys.append(str(a))
    pr = tm.mk("pair", tuple(full_), "R")
    order = tm._canon_free(pr, "_b")
    ren = {o: var("_a%d" % k, "I") for k, o in enumerate(order)}
    # scalar arguments become real arguments, arrays are part of the symbol
    key = [name, tuple(keys)]
    sargs = []
    pos = 0
    for kx in keys:
        if kx == "a":
            n_, m_, e_ = full_[pos:pos + 3]
            pos += 3
            key.append((tm.norm(subst(n_, ren)).key(), tm.norm(subst(m_, ren)).key(), tm.norm(subst(e_, ren)).key()))
        elif kx == "s":
            sargs.append(full_[pos])
            pos += 1
        elif isinstance(kx, tuple):
            sargs += full_[pos:pos + kx[1]]
            pos += kx[1]
    key = tuple(key)
    nm = _opk.get(key)
    if nm is None:
        nm = "%s#%d" % (name, len(_opk) + 1)
        _opk[key] = nm
    return wr(app(nm, sargs + [var(o, "I") for o in order], sort))


def median(x, **k):
    return opaque("median", [_as1(x)])


def polyfit(x, y, deg, **k):
    x, y = _as1(x), _as1(y)
    cov = k.pop("cov", False)
    if deg != 1 or k:
        raise Unsupported("polyfit options")
    n = wrapn(x.count_t())
    sx, sy, sxy, sxx = sum(x), sum(y), sum(x * y), sum(x * x)
    d = n * sxx - sx * sx
    b = (n * sxy - sx * sy) / d
    a = (sy - b * sx) / n
    c = CArr([b, a])
    if cov:
        V = [[opaque("polycov", [x, y, i, j]) for j in (0, 1)] for i in (0, 1)]
        return c, Rows([CArr(r) for r in V])
    return c


def nan_to_num(x, **k):
    return x


def insert(a, k, v):
    if k == 0:
        return append(CArr([v]), a)
    raise Unsupported("insert")


def logical(f):
    def g(a, b):
        a, b = asarr(a), asarr(b)
        if isscalar(a) and isscalar(b):
            return wrapb(f(tof(a), tof(b)))
        if isscalar(a):
            a, b = b, a
        return a._bop(b, f)
    return g


def invert(a):
    return ~asarr(a)


class Random:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("np.random." + k)

    def seed(self, *a):
        return None

    def rand(self, *a):
        return self._u(a[0] if a else None)

    random = rand

    def uniform(self, lo=0, hi=1, size=None):
        u = self._u(size)
        return u * (hi - lo) + lo

    def _u(self, n):
        k = sym.CTX.rndc = getattr(sym.CTX, "rndc", 0) + 1
        if n is None:
            v = var("rnd%d" % k)
            sym.CTX.assume(and_(le(ZERO, v), lt(v, ONE)))
            return SNum(v)
        nm = "rndf%d" % k

        def ax(args):
            t = app(nm, args)
            return [le(ZERO, t), lt(t, ONE)]
        sym.AXIOMS[nm] = ax
        t = _n(n)
        if t.op == "num":
            return CArr([SNum(app(nm, [num(i)])) for i in range(int(t.args[0]))], "f")
        return SArr(t, app(nm, [IX]), "f")

    def power(self, a, size=None):
        u = self._u(size)
        inv = 1 / a if not isinstance(a, int) else Fraction(1, a)
        return u ** inv


class NPModule:
    """stands for the numpy module inside the verified code"""
    pi = SNum(sym.PI)
    e = Fraction("2.718281828459045")
    inf = float("inf")
    nan = float("nan")
    newaxis = None
    random = Random()
    ndarray = ndarray
    bool_ = "bool"
    bool = "bool"
    int64 = int32 = "int64"
    float64 = "float64"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        g = globals().get(_ALIAS.get(k, k))
        if k in _EXPORT and g is not None:
            return g
        if not hasattr(_np, k):
            raise AttributeError("module 'numpy' has no attribute %r" % k)
        raise Unsupported("numpy." + k)


logical_and, logical_or = logical(and_), logical(or_)
_ALIAS = {"amin": "min", "amax": "max", "absolute": "fabs", "abs": "fabs", "var": "var_", "logical_not": "invert",
          "power": "power_", "nansum": "sum", "multiply": "mul_", "concat": "concatenate"}
power_ = ufunc2(sym.tpow)
mul_ = ufunc2(mul)
_EXPORT = set("""sqrt sin cos tan arctan2 arctan arccos arcsin log log10 exp fabs abs absolute sign radians degrees floor ceil isnan isinf
isfinite maximum minimum hypot sum mean std var average min max amin amax argmin argmax argsort sort cumsum any all array_equal zeros ones empty
full zeros_like ones_like arange linspace logspace append concatenate hstack array asarray atleast_1d where argwhere isin dot matmul cross
column_stack vstack median polyfit nan_to_num insert logical_and logical_or logical_not invert power multiply""".split())
NP = NPModule()
