"""Runtime support for the transformed modules: builtins, loops, contract dispatch."""
import builtins, sys, functools, types
from fractions import Fraction
from . import sym, terms as tm
from .sym import (SNum, SBool, SArr, CArr, SArr2, Unsupported, PathEnd, wrapn, wrapb, tof, tnum, isscalar)
from .terms import num, var, app, IX, ite, eq, lt, le, and_, or_, not_, subst, TRUE, FALSE

SOURCES = {}
_F = {}


class UnsupportedCode(BaseException):
    pass


def F(s):
    r = _F.get(s)
    if r is None:
        if s in ("inf", "nan", "-inf"):
            return float(s)
        r = _F[s] = Fraction(s)
    return r


def den(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return Fraction(v)
    return v


def div(a, b):
    if isinstance(b, (int, Fraction)) and not isinstance(b, bool):
        if isinstance(a, (int, Fraction)):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return Fraction(a) / Fraction(b)
        return a / Fraction(b)
    return a / b


def pow(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return wrapn(sym.tpow(tof(a), tof(b)))
    return a ** b


def mod(a, b):
    if isinstance(a, str):
        try:
            return a % b
        except Exception:
            return "<formatted>"
    return a % b


def isin(a, b):
    if isinstance(b, (list, tuple)) and not isinstance(b, VList):
        return _anyeq(a, b)
    if isinstance(b, VList):
        return _anyeq(a, list(b))
    return a in b


def _anyeq(a, b):
    for x in b:
        if a is x:
            return True
        r = (a == x)
        if r is NotImplemented:
            continue
        if isinstance(r, SArr):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        if bool(r):
            return True
    return False


class Unbound:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<unbound %s>" % self.name


class Poison:
    """value of a loop-carried variable the loop rule could not summarise"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "why"))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __getitem__ = __iter__ = __call__ = _bad
    __pow__ = __neg__ = __len__ = __contains__ = __and__ = __or__ = _bad
    __hash__ = None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(object.__getattribute__(self, "why"))


def grab(f):
    try:
        return f()
    except NameError:
        return Unbound("")


class VTObj:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        object.__setattr__(o, "_vt_birth", next(sym._birth))
        return o

    def __setattr__(self, k, v):
        c = sym.CTX
        if c is not None and c.loops:
            c.touch(self)
        object.__setattr__(self, k, v)

    def save(self):
        return dict(self.__dict__)

    def load(self, s):
        self.__dict__.clear()
        self.__dict__.update(s)


class Seg:
    """list segment produced by a symbolic loop: elements e over _i0 in [0,n) where mask"""

    def __init__(self, n, mask, e, dt):
        self.n, self.mask, self.e, self.dt = n, mask, e, dt

    def arr(self):
        return SArr(self.n, self.e, self.dt, self.mask)


class VList(list):
    def __init__(self, *a):
        list.__init__(self, *a)
        self.segs = None      # None: concrete; else list of items/Seg
        self.birth = next(sym._birth)

    def save(self):
        return (list.__getitem__(self, slice(None)), list(self.segs) if self.segs is not None else None)

    def load(self, s):
        list.__setitem__(self, slice(None), s[0])
        self.segs = s[1]

    def _t(self):
        if sym.CTX is not None and sym.CTX.loops:
            sym.CTX.touch(self)

    def append(self, x):
        self._t()
        if self.segs is not None:
            self.segs.append(("c", x))
        else:
            list.append(self, x)

    def extend(self, xs):
        self._t()
        if self.segs is not None:
            raise Unsupported("extend of a segmented list")
        list.extend(self, xs)

    def __setitem__(self, k, v):
        self._t()
        if self.segs is not None or isinstance(k, SNum):
            raise Unsupported("list item assignment with symbolic structure")
        list.__setitem__(self, k, v)

    def __iadd__(self, xs):
        self._t()
        if self.segs is not None:
            raise Unsupported("list += with segments")
        list.extend(self, xs)
        return self

    def __getitem__(self, k):
        if self.segs is not None or isinstance(k, SNum):
            a = self.toarr()
            return a[k]
        r = list.__getitem__(self, k)
        if isinstance(k, slice):
            return VList(r)
        return r

    def __iter__(self):
        if self.segs is not None:
            raise Unsupported("iterating a segmented list outside transformed code")
        return list.__iter__(self)

    def __len__(self):
        if self.segs is not None:
            raise Unsupported("len of a segmented list")
        return list.__len__(self)

    def __mul__(self, k):
        if isinstance(k, SNum) and list.__len__(self) == 1:
            return ListArr(k.t, tof(list.__getitem__(self, 0)))
        return VList(list.__mul__(self, k))
    __rmul__ = __mul__

    def __add__(self, o):
        return VList(list.__add__(self, list(o)))

    def __contains__(self, o):
        return _anyeq(o, list(self))

    def toarr(self):
        from . import npmodel
        return npmodel.asarr(self)

    def __copy__(self):
        r = VList(list.__getitem__(self, slice(None)))
        r.segs = list(self.segs) if self.segs is not None else None
        return r

    def __deepcopy__(self, memo):
        return self.__copy__()


class ListArr(SArr):
    """list of numbers of symbolic length, item assignment only"""

    def _no(self, *a, **k):
        raise Unsupported("list operation on a list of symbolic length")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _no
    append = extend = __iadd__ = __imul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _no
    __hash__ = object.__hash__

    def copy(self):
        return SArr(self.n, self.e, self.dt, self.mask)
    __copy__ = copy


def from_arr(a):
    v = VList()
    v.segs = [("s", Seg(a.n, a.mask, a.e, a.dt))]
    return v


def L(x):
    return VList(x)


# ------------------------------------------------------------------ loops
class Loop:
    """driver of a `for`: concrete iterables unchanged, symbolic ones by the loop rule.

    Loop rule (inferred invariant, checked by construction): the body is executed symbolically for an
    arbitrary iteration k from an arbitrary loop-carried state; each carried scalar / array cell must
    evolve as  v' = A + B*v  with A,B independent of the carried state.  B=1 gives v = v0 + sum_k A,
    guarded single-cell stores give the map rule, and list appends give a filtered map."""
    _sym = False

    def __init__(self, it, where, names, vals):
        self.where = where
        self.names = names
        self.vals0 = dict(zip(names, vals))
        self.it = it
        self.sym = False
        self.ph = {}
        self.done = False
        self.dom = sym_domain(it)
        if self.dom is not None:
            self.sym = True

    def __iter__(self):
        if not self.sym:
            if isinstance(self.it, SArr) and not isinstance(self.it, CArr):
                raise Unsupported("loop over array")
            yield from iterate(self.it)
            return
        yield from self._run()

    # ---- symbolic
    def touched(self, obj):
        b = object.__getattribute__(obj, "__dict__").get("_vt_birth") if isinstance(obj, VTObj) else obj.birth
        if b < self.birth:
            if id(obj) not in self.mods:
                self.mods[id(obj)] = (obj, obj.save())

    def _run(self):
        c = sym.CTX
        n, elem = self.dom
        self.k = var(c.fresh("L"), "I")
        self.birth = next(sym._birth)
        self.mods = {}
        self.done = False
        base_mark = c.mark()
        # phase 1: find what the body mutates; phase 2: summarise
        self.flag = {}
        for phase in (1, 2):
            stack = [[]]
            self.results = []
            npaths = 0
            while stack:
                dec = stack.pop()
                fr = sym.Frame(dec)
                c.frames.append(fr)
                c.loops.append(self)
                c.assume(and_(le(num(0), self.k), lt(self.k, n)))
                nobl = len(c.obls)
                self.cur = None
                self.placeholders()
                self.finished = False
                try:
                    yield elem(self.k)
                except GeneratorExit:
                    raise Unsupported("break/return out of a symbolic loop at " + self.where)
                if not self.finished:
                    raise Unsupported("loop body did not finish: " + self.where)
                c.loops.remove(self)
                c.frames.remove(fr)
                self.capture(fr)
                c.reset(base_mark)
                if phase == 1:
                    del c.obls[nobl:]
                stack.extend(fr.alts)
                npaths += 1
                if npaths > 64:
                    raise Unsupported("too many paths in loop body at " + self.where)
            for i, (o, s) in self.mods.items():
                o.load(s)
        self.summarise(n)
        self.done = True

    def placeholders(self):
        """set flagged objects to placeholder contents"""
        self.rd = {}
        for j, (i, (o, s)) in enumerate(sorted(self.mods.items(), key=lambda x: getattr(x[1][0], "birth", 0))):
            o.load(s)
            if isinstance(o, CArr):
                raise Unsupported("fixed-size array updated in a symbolic loop: " + self.where)
            if isinstance(o, SArr):
                nm = "@RD%s_%d" % (self.k.args[0], j)
                o.e = app(nm, [IX], o.e.sort if o.e.sort != "I" else "I")
                self.rd[i] = nm
            elif isinstance(o, VList):
                list.__init__(o)
                o.segs = None

    def head(self, names):
        out = []
        for x in names:
            v = self.vals0[x]
            if isinstance(v, SBool) or isinstance(v, bool):
                out.append(v)
                continue
            if isscalar(v) and not isinstance(v, bool):
                t = tof(v)
                p = var("@P%s_%s" % (self.k.args[0], x), t.sort if t.sort != "I" else "I")
                self.ph[x] = p
                out.append(SNum(p))
            else:
                out.append(v)
        return tuple(out)

    def tail(self, vals):
        self.cur = dict(zip(self.names, vals))
        self.finished = True

    def brk(self):
        if self.sym:
            raise Unsupported("break out of a symbolic loop at " + self.where)

    def capture(self, fr):
        st = {}
        for i, (o, s) in self.mods.items():
            if isinstance(o, SArr):
                st[i] = (o.n, o.mask, o.e, o.dt)
            elif isinstance(o, VList):
                if o.segs is not None:
                    st[i] = ("segs", list(o.segs))
                else:
                    st[i] = ("items", list.__getitem__(o, slice(None)))
            else:
                st[i] = ("obj", dict(o.__dict__))
        self.results.append((and_(*fr.conds), self.cur, st))

    def summarise(self, n):
        k = self.k
        kn = k.args[0]
        res = self.results
        if not res:
            raise Unsupported("empty loop exploration")
        # containers
        for i, (o, s) in list(self.mods.items()):
            if isinstance(o, SArr):
                nm = self.rd.get(i)
                n0, m0, e0 = s[0], s[1], s[2]
                e1 = None
                for cond, cur, st in res:
                    rn, rm, re, rdt = st[i]
                    if rn is not n0 or rm is not m0:
                        raise Unsupported("array resized in loop")
                    e1 = re if e1 is None else ite(cond, re, e1)
                o.load(s)
                if getattr(self.it, "parallel", False):
                    sym.ensure_disjoint(e1, nm, k, self.where)
                e2 = affine_summary(e1, nm, [IX], e0, n, k)
                if e2 is None:
                    raise Unsupported("array update not summarisable in loop at " + self.where)
                o.e = e2
                o.dt = st[i][3]
                sym.CTX.touch(o)
            elif isinstance(o, VList):
                conds, elems = [], []
                cnt = set()
                mult = None
                for cond, cur, st in res:
                    kind, items = st[i]
                    if kind != "items":
                        raise Unsupported("nested list segments")
                    cnt.add(len(items))
                    if len(items) == 0:
                        continue
                    if len(items) > 1:
                        raise Unsupported("several appends per iteration")
                    conds.append(cond)
                    elems.append(items[0])
                o.load(s)
                if not elems:
                    continue
                if not all(isscalar(x) for x in elems):
                    raise Unsupported("non-scalar list elements in a symbolic loop")
                e = tof(elems[-1])
                for cd, el in zip(conds[-2::-1], elems[-2::-1]):
                    e = ite(cd, tof(el), e)
                mask = or_(*conds) if 0 in cnt else TRUE
                m = {kn: IX}
                e, mask = subst(e, m), subst(mask, m)
                if o.segs is None:
                    o.segs = [("c", x) for x in list.__getitem__(o, slice(None))]
                    list.__init__(o)
                dt = "b" if e.sort == "B" else "i" if e.sort == "I" else "f"
                sym.CTX.touch(o)
                o.segs.append(("s", Seg(n, None if mask is TRUE else mask, e, dt)))
            else:
                base = s
                o.load(s)
                for cond, cur, st in res:
                    d = st[i][1]
                    for a in set(d) | set(base):
                        if d.get(a) is not base.get(a):
                            raise Unsupported("object attribute %s changed in a symbolic loop at %s" % (a, self.where))
        # scalars
        self.final = {}
        for x in self.names:
            v0 = self.vals0[x]
            vs = [cur[x] for _, cur, _ in res]
            if x in self.ph:
                p = self.ph[x]
                if all(isscalar(v) for v in vs):
                    e1 = tof(vs[-1])
                    if e1.sort == "B":
                        self.final[x] = Poison("loop variable %s" % x)
                        continue
                    for (cond, cur, _), v in list(zip(res, vs))[-2::-1]:
                        e1 = ite(cond, tof(v), e1)
                    r = affine_scalar(e1, p, tof(v0), n, k)
                    self.final[x] = Poison("loop-carried %s at %s" % (x, self.where)) if r is None else wrapn(r)
                    continue
                self.final[x] = Poison("loop-carried %s changes type at %s" % (x, self.where))
                continue
            if all(v is v0 for v in vs):
                self.final[x] = v0
                continue
            if isinstance(v0, Unbound) and len(res) == 1 and isscalar(vs[0]):
                # value of the last iteration (unbound if the loop is empty)
                t = tof(vs[0])
                if not any(f.startswith("@") for f in t.fv):
                    self.final[x] = LastIter(self, t, n)
                    if sym.quick(lt(num(0), n), sym.CTX.pcset) is TRUE or not sym.CTX.feasible(le(n, num(0)), True):
                        z = subst(t, {kn: sym.sub2(n, num(1))})
                        self.final[x] = wrapb(z) if z.sort == "B" else wrapn(z)
                    else:
                        self.final[x] = Poison("last value of %s after a possibly empty loop at %s" % (x, self.where))
                    continue
            self.final[x] = Poison("loop-carried %s at %s" % (x, self.where))

    def exit(self, vals):
        return tuple(self.final[x] for x in self.names)


class WLoop:
    """`while` with a contract-supplied invariant (api.invariant): checked on entry, assumed for an arbitrary state of the variables the
    body assigns, and checked again after one execution of the body.  Without one the loop simply runs (one path per iteration count)."""

    def __init__(self, where, names):
        from . import api
        self.where, self.names = where, names
        self.inv = api.INVARIANTS.get(where) if sym.CTX is not None else None
        self.sym = self.inv is not None
        self.first = True
        self.mem = {}

    def touched(self, obj):
        b = object.__getattribute__(obj, "__dict__").get("_vt_birth") if isinstance(obj, VTObj) else obj.birth
        if b < self.birth:
            raise Unsupported("while loop %s changes an object it does not own" % self.where)

    def check(self, L, phase):
        S = REG["S"]
        for x, f in self.inv["define"].items():
            S.eq("invariant of %s (%s): %s" % (self.where.split(".")[-1], phase, x), getattr(L, x), f(S, L, self.L0))
        for label, c in self.inv["fn"](S, L, self.L0, phase, self.mem):
            S.ensure("invariant of %s (%s): %s" % (self.where.split(".")[-1], phase, label), c)

    def head(self, vals, env):
        S = REG["S"]
        env = {k: v for k, v in env.items() if not k.startswith("_vl")}
        env.update({x: v for x, v in zip(self.names, vals) if not isinstance(v, Unbound)})
        L = types.SimpleNamespace(**env)
        if not self.first:
            for x, v in zip(self.names, vals):
                if x in self.havoced and not isscalar(v):
                    raise Unsupported("loop variable %s changes type at %s" % (x, self.where))
                if x in self.havoced and tof(v).sort != self.havoced[x] and not (self.havoced[x] == "R" and tof(v).sort == "I"):
                    raise Unsupported("loop variable %s changes type at %s" % (x, self.where))
            self.check(L, "preserved")
            raise sym.PathEnd()
        self.first = False
        self.L0 = types.SimpleNamespace(**env)
        for x, v in list(self.L0.__dict__.items()):
            if isinstance(v, SArr):
                setattr(self.L0, x, v.copy())
        S.loops[self.where] = self.mem
        self.check(L, "on entry")
        self.birth = next(sym._birth)
        self.havoced = {}
        new = {}
        for x, v in zip(self.names, vals):
            if x in self.inv["define"]:
                continue
            if isinstance(v, Unbound):
                new[x] = v
            elif isscalar(v):
                s = tof(v).sort
                self.havoced[x] = s
                new[x] = wrapb(var(sym.CTX.fresh("h_" + x), s)) if s == "B" else SNum(var("h_%s%d" % (x, next(sym.CTX.uid)), s))
            else:
                new[x] = Poison("%s changed in a loop at %s" % (x, self.where))
        L = types.SimpleNamespace(**env)
        for x, v in new.items():
            setattr(L, x, v)
        for x, f in self.inv["define"].items():
            v = f(S, L, self.L0)
            new[x] = v.copy() if isinstance(v, SArr) else v
            setattr(L, x, v)
        for label, c in self.inv["fn"](S, L, self.L0, "assumed", self.mem):
            S.require(c)
        self.mem["L"] = types.SimpleNamespace(**{k: (v.copy() if isinstance(v, SArr) else v) for k, v in L.__dict__.items()})
        sym.CTX.loops.append(self)
        return tuple(new[x] for x in self.names)

    def leave(self):
        if self in sym.CTX.loops if sym.CTX is not None else False:
            sym.CTX.loops.remove(self)


class LastIter:
    def __init__(self, *a):
        pass


def has_sym(t, nm):
    return any((x.op == "app" and x.args[0] == nm) or (x.op == "var" and x.args[0] == nm) for x in tm.subterms(t).values())


def poly_split(t, test):
    """norm(t) -> (terms without, list of (mono, coeff) with) according to atom predicate"""
    p = tm.norm(t)
    A, B = {}, {}
    for m, c in p.d.items():
        if any(test(a) for a, e in m):
            B[m] = c
        else:
            A[m] = c
    return tm.Poly(A), B


def _atom_mentions(a, nm):
    kind, pl = tm.ATOM_INFO[a]
    if kind in ("t", "b"):
        return has_sym(pl, nm)
    return any(_atom_mentions(b, nm) for m in pl.d for b, e in m)


def affine_scalar(e1, p, v0, n, k):
    try:
        A, B = poly_split(e1, lambda a: _atom_mentions(a, p.args[0]))
    except tm.Blowup:
        return None
    pa = tm.atom("t", p, p.id)
    coeff = {}
    for m, c in B.items():
        d = dict(m)
        if d.pop(pa, None) != 1:
            return None
        if any(_atom_mentions(a, p.args[0]) for a in d):
            return None
        coeff[tuple(sorted(d.items()))] = c
    Bp = tm.Poly(coeff)
    if not Bp.d:
        # overwritten each iteration
        last = subst(tm.p2t(A), {k.args[0]: sym.sub2(n, num(1))})
        if e1.sort == "I":
            last = tm.p2int(tm.norm(last))
        return ite(lt(num(0), n), last, v0)
    if Bp.const() == 1:
        r = tm.add(v0, tm.mk_sum(n, k, tm.p2t(A)))
        if e1.sort == "I":
            r = tm.p2int(tm.norm(r))
        return r
    return None


def affine_summary(e1, nm, idx, e0, n, k):
    """array cell update  e1 = A + B*RD(_i0)  ->  contents after all iterations"""
    rd = app(nm, [IX], e1.sort)
    isb = e1.sort == "B"
    try:
        A, B = poly_split(e1, lambda a: _atom_mentions(a, nm))
        pr = list(tm.norm(rd).d)[0][0][0]
        coeff = {}
        for m, c in B.items():
            d = dict(m)
            if d.pop(pr, None) != 1:
                return None
            if any(_atom_mentions(a, nm) for a in d):
                return None
            coeff[tuple(sorted(d.items()))] = c
        Bp = tm.Poly(coeff)
        if Bp.const() == 1:
            S = tm.mk_sum(n, k, tm.p2t(A))
            if isb:
                if not A.d:
                    return e0
                return None
            r = tm.add(e0, S)
            return tm.p2int(tm.norm(r)) if e1.sort == "I" else r
        # map rule: B = 1 - c with c an indicator true for at most one k per cell
        C = tm.padd(tm.PONE, Bp, -1)
        for m, c in C.d.items():
            if not any(tm.ATOM_INFO[a][0] == "eq" and unit_in(tm.ATOM_INFO[a][1], k.args[0]) for a, e in m):
                return None
        Cs = tm.mk_sum(n, k, tm.p2t(C))
        As = tm.mk_sum(n, k, tm.p2t(A))
        g = tm.norm(Cs)
        if isb:
            e0p = tm.norm(e0)
            r = tm.padd(tm.pmul(tm.padd(tm.PONE, g, -1), e0p), tm.norm(As))
            return lt(tm.ZERO, tm.p2t(r))
        r = tm.padd(tm.pmul(tm.padd(tm.PONE, g, -1), tm.norm(e0)), tm.norm(As))
        return tm.p2int(r) if e1.sort == "I" else tm.p2t(r)
    except tm.Blowup:
        return None


def unit_in(pl, kn):
    va = tm.atom("t", var(kn, "I"), var(kn, "I").id)
    return pl.d.get(((va, 1),)) in (1, -1)


def sym_domain(it):
    """(n T, elem(k)->value) for a symbolic iterable, None if concrete"""
    if isinstance(it, VRange):
        if it.step != 1:
            raise Unsupported("range step")
        lo, hi = it.lo, it.hi
        ln = sym.sub2(hi, lo)
        ln = ite(lt(num(0), ln), ln, num(0)) if sym.quick(le(num(0), ln), sym.CTX.pcset) is not TRUE else ln
        if ln.op == "ite":
            if sym.CTX.branch(le(lo, hi)):
                ln = sym.sub2(hi, lo)
            else:
                ln = num(0)
        if ln.op == "num":
            return None
        return ln, (lambda k: wrapn(tm.add(k, lo) if not (lo.op == "num" and lo.args[0] == 0) else k))
    if isinstance(it, CArr):
        return None
    if isinstance(it, SArr):
        a = it.dense()
        if a.n.op == "num":
            return None
        return a.n, (lambda k: a.wrap(subst(a.e, {"_i0": k})))
    if isinstance(it, VList) and it.segs is not None:
        return sym_domain(it.toarr())
    if isinstance(it, VZip):
        ds = [sym_domain(x) for x in it.xs]
        if all(d is None for d in ds):
            return None
        if any(d is None for d in ds):
            raise Unsupported("zip of symbolic and concrete")
        n0 = ds[0][0]
        for d in ds[1:]:
            if not sym.same_t(n0, d[0]):
                raise Unsupported("zip of different lengths")
        return n0, (lambda k: tuple(d[1](k) for d in ds))
    if isinstance(it, VEnum):
        d = sym_domain(it.x)
        if d is None:
            return None
        return d[0], (lambda k: (wrapn(tm.add(k, num(it.start))), d[1](k)))
    return None


def iterate(it):
    if isinstance(it, VRange):
        lo = it.lo
        ln = sym.sub2(it.hi, lo)
        if ln.op != "num" and isinstance(it.step, int) and lo.op == "num" and it.hi.op == "num":
            pass
        if lo.op == "num" and it.hi.op == "num":
            yield from range(int(lo.args[0]), int(it.hi.args[0]), it.step)
        else:
            if ln.op != "num":
                raise Unsupported("range")
            for j in range(0, int(ln.args[0])):
                yield wrapn(tm.add(lo, num(j)))
        return
    if isinstance(it, VZip):
        yield from builtins.zip(*[iterate(x) for x in it.xs])
        return
    if isinstance(it, VEnum):
        for j, x in builtins.enumerate(iterate(it.x)):
            yield (j + it.start, x)
        return
    if isinstance(it, SArr) and not isinstance(it, CArr):
        a = it.dense()
        if a.n.op == "num":
            for j in range(int(a.n.args[0])):
                yield a.wrap(subst(a.e, {"_i0": num(j)}))
            return
    yield from builtins.iter(it)


class VRange:
    def __init__(self, *a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        for x in (lo, hi):
            if isinstance(x, (Fraction, float)):
                raise TypeError("'float' object cannot be interpreted as an integer")
        self.lo, self.hi, self.step = tof(lo), tof(hi), st
        if self.lo.sort != "I" or self.hi.sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")

    def __iter__(self):
        return iterate(self)

    def __len__(self):
        return int(sym.sub2(self.hi, self.lo).args[0])


class VZip:
    def __init__(self, *xs):
        self.xs = xs

    def __iter__(self):
        return iterate(self)


class VEnum:
    def __init__(self, x, start=0):
        self.x, self.start = x, start

    def __iter__(self):
        return iterate(self)


def loop(it, where, names, vals):
    return Loop(it, where, names, vals)


def ret(*ls):
    for l in ls:
        if l.sym and not l.done:
            raise Unsupported("return inside a symbolic loop at " + l.where)


def lc(f, it, conds):
    d = sym_domain(it)
    out = VList()
    if d is None:
        for x in iterate(it):
            if all(bool(c(x)) for c in conds):
                list.append(out, f(x))
        return out
    lp = Loop(it, "comprehension", (), ())
    for x in lp:
        if all(bool(c(x)) for c in conds):
            out.append(f(x))
        lp.tail(())
    return out


# ------------------------------------------------------------------ contract dispatch
FUNCS = {}
REG = {"uses": {}, "active": [], "entered": set(), "target": None, "used": set()}


def fn(qual):
    def deco(f):
        if not isinstance(f, types.FunctionType):
            FUNCS[qual] = f
            return f

        @functools.wraps(f)
        def w(*a, **k):
            h = REG["uses"].get(qual)
            if h is not None and qual not in REG["active"] and sym.CTX is not None:
                REG["used"].add(qual)
                return h(f, a, k)
            if sym.CTX is not None:
                REG["entered"].add(qual)
            return f(*a, **k)
        w.__vt_raw__ = f
        FUNCS[qual] = w
        return w
    return deco


# ------------------------------------------------------------------ builtins
def vlen(x):
    if isinstance(x, CArr):
        return len(x.items)
    if isinstance(x, SArr):
        return wrapn(x.count_t())
    if isinstance(x, VList) and x.segs is not None:
        return vlen(x.toarr())
    if isinstance(x, SArr2):
        return wrapn(x.nr)
    if hasattr(x, "cols"):
        return vlen(x.cols[0])
    if isinstance(x, (SNum, Fraction)):
        raise TypeError("object of type 'float' has no len()")
    return builtins.len(x)


class _Meta(type):
    def __instancecheck__(cls, o):
        return cls.chk(o)

    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is getattr(cls, "py", None)

    def __hash__(cls):
        return id(cls)


class vfloat(metaclass=_Meta):
    py = float

    @staticmethod
    def chk(o):
        return isinstance(o, (Fraction, float)) or (isinstance(o, SNum) and o.t.sort == "R")

    @staticmethod
    def conv(x=0):
        if isinstance(x, str):
            return F(x)
        if isinstance(x, float):
            return x
        if isinstance(x, SArr):
            if x.scalarlike():
                return wrapn(x.scalar_t())
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        t = tnum(x)
        if t.op == "num":
            return t.args[0]
        return SNum(mkreal(t))


def mkreal(t):
    return t if t.sort == "R" else tm.mk("*", (tm.ONE, t), "R")


class vint(metaclass=_Meta):
    py = int

    @staticmethod
    def chk(o):
        return isinstance(o, int) or (isinstance(o, SNum) and o.t.sort == "I")

    @staticmethod
    def conv(x=0, base=None):
        if isinstance(x, str):
            return builtins.int(x)
        if isinstance(x, (int, Fraction)):
            return builtins.int(x)
        t = tnum(x)
        return wrapn(trunc(t))


def trunc(t):
    if t.sort == "I":
        return t
    if t.op == "*" and t.args[0] is tm.ONE and len(t.args) == 2 and t.args[1].sort == "I":
        return t.args[1]
    p = sym.quick(le(num(0), t), sym.CTX.pcset)
    if p is TRUE:
        return tm.floor(t)
    return ite(le(num(0), t), tm.floor(t), tm.neg(tm.floor(tm.neg(t))))


class vbool(metaclass=_Meta):
    py = bool

    @staticmethod
    def chk(o):
        return isinstance(o, (bool, SBool))

    @staticmethod
    def conv(x=False):
        if isinstance(x, SBool):
            return x
        return builtins.bool(x)


class vstr(metaclass=_Meta):
    py = str

    @staticmethod
    def chk(o):
        return isinstance(o, str)

    @staticmethod
    def conv(x=""):
        return builtins.str(x)


def visinstance(o, k):
    if isinstance(k, tuple):
        return any(visinstance(o, x) for x in k)
    if k is float or k == "float64":
        k = vfloat
    elif k is int or k == "int64":
        k = vint
    elif k is bool or k == "bool":
        k = vbool
    from . import npmodel
    if k is npmodel.ndarray:
        return isinstance(o, (SArr, SArr2))
    return isinstance(o, k)


def vmax(*a, **k):
    from . import npmodel
    if len(a) == 1:
        a0 = a[0]
        if isinstance(a0, SArr) or (isinstance(a0, VList) and a0.segs is not None):
            return npmodel.max(a0)
        a = list(a0)
    r = a[0]
    for x in a[1:]:
        r = wrapn(ite(lt(tnum(r), tnum(x)), tnum(x), tnum(r)))
    return r


def vmin(*a, **k):
    from . import npmodel
    if len(a) == 1:
        a0 = a[0]
        if isinstance(a0, SArr) or (isinstance(a0, VList) and a0.segs is not None):
            return npmodel.min(a0)
        a = list(a0)
    r = a[0]
    for x in a[1:]:
        r = wrapn(ite(lt(tnum(x), tnum(r)), tnum(x), tnum(r)))
    return r


def vsum(x, start=0):
    from . import npmodel
    if isinstance(x, SArr) or (isinstance(x, VList) and x.segs is not None):
        return npmodel.sum(x)
    r = start
    for y in x:
        r = r + y
    return r


def vabs(x):
    return abs(x)


def vround(x, nd=None):
    if isinstance(x, (int, Fraction)):
        r = builtins.round(x) if nd is None else builtins.round(x, nd)
        return r
    raise Unsupported("round")


def vsorted(x, **k):
    raise Unsupported("sorted")


def vprint(*a, **k):
    return None


def vtype(o, *rest):
    if rest:
        return type(o, *rest)
    if isinstance(o, SNum):
        return vint if o.t.sort == "I" else vfloat
    return type(o)


def vopen(*a, **k):
    from . import stubs
    return stubs.vopen(*a, **k)


def vimport(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and not name.startswith("clustertools"):
        from . import stubs
        m = stubs.get(name, fromlist)
        if m is not None:
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(len=vlen, float=vfloat, int=vint, bool=vbool, isinstance=visinstance, max=vmax, min=vmin,
                sum=vsum, abs=vabs, round=vround, sorted=vsorted, print=vprint, type=vtype, open=vopen,
                range=VRange, zip=VZip, enumerate=VEnum, __import__=vimport)
