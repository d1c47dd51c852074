"""Term language of the verifier: hash-consed real/int/bool terms, a normal form
(Laurent polynomials over atoms and 0/1 indicators), indexed sums, z3 export.

Machine arithmetic is treated as mathematical (exact reals, unbounded ints)."""
import math
from fractions import Fraction
import itertools

_tab = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "_n")

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else ("c", a) for a in args), sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id = op, tuple(args), sort, next(_ids)
        t._n = None
        if op == "var":
            t.fv = frozenset((args[0],))
        else:
            s = frozenset()
            for a in args:
                if isinstance(a, T) and a.fv:
                    s = s | a.fv if s else a.fv
            t.fv = s
        _tab[key] = t
    return t


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(type(x))


def num(x, sort=None):
    if sort is None:
        sort = "I" if isinstance(x, int) else "R"
    return mk("num", (frac(x),), sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
ZERO = num(Fraction(0))
ONE = num(Fraction(1))
IX = mk("var", ("_i0",), "I")
IX1 = mk("var", ("_i1",), "I")


def var(name, sort="R"):
    return mk("var", (name,), sort)


def app(f, args, sort="R"):
    return mk("app", (f,) + tuple(args), sort)


def isnum(t):
    return t.op == "num"


def _rs(*ts):
    return "I" if all(t.sort == "I" for t in ts) else "R"


def toreal_sort(t):
    return t


def add(*ts):
    c = Fraction(0)
    out = []
    for t in ts:
        if isnum(t):
            c += t.args[0]
        elif t.op == "+":
            for a in t.args:
                if isnum(a):
                    c += a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    s = _rs(*ts)
    if c != 0 or not out:
        out.append(num(c, s))
    if len(out) == 1 and out[0].sort == s:
        return out[0]
    if len(out) == 1:
        return out[0]
    return mk("+", out, s)


def mul(*ts):
    c = Fraction(1)
    out = []
    for t in ts:
        if isnum(t):
            c *= t.args[0]
        elif t.op == "*":
            for a in t.args:
                if isnum(a):
                    c *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    s = _rs(*ts)
    if c == 0:
        return num(Fraction(0), s)
    if c != 1 or not out:
        out.insert(0, num(c, s))
    if len(out) == 1:
        return out[0]
    return mk("*", out, s)


def neg(t):
    return mul(num(-1, t.sort if t.sort == "I" else "R"), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if isnum(b) and b.args[0] != 0:
        return mul(num(1 / b.args[0], "R"), a)
    if isnum(a) and a.args[0] == 0:
        return ZERO
    return mk("/", (a, b), "R")


def powr(a, q):
    """a ** q, q a rational constant."""
    q = frac(q)
    if q == 0:
        return ONE
    if q == 1:
        return a
    if isnum(a):
        v = a.args[0]
        if q.denominator == 1 and (v != 0 or q > 0):
            return num(v ** int(q), a.sort if q > 0 else "R")
        if v >= 0 and q > 0:
            r = _exact_root(v, q)
            if r is not None:
                return num(r, "R")
    if a.op == "^" and a.args[1].args[0].denominator == 1 and q.denominator == 1:
        return powr(a.args[0], a.args[1].args[0] * q)
    return mk("^", (a, num(q, "R")), a.sort if (q.denominator == 1 and q > 0) else "R")


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def _exact_root(v, q):
    a = _iroot(v.numerator, q.denominator)
    b = _iroot(v.denominator, q.denominator)
    if a is None or b is None or b == 0:
        return None
    return Fraction(a, b) ** q.numerator


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), _rs(a, b))


def lt(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return mk("eq", (a, b), "B")


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for a in (t.args if t.op == "and" else (t,)):
            if a not in out:
                out.append(a)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, "B")


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for a in (t.args if t.op == "or" else (t,)):
            if a not in out:
                out.append(a)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", out, "B")


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":
        return le(t.args[1], t.args[0])
    if t.op == "le":
        return lt(t.args[1], t.args[0])
    return mk("not", (t,), "B")


def implies(a, b):
    return or_(not_(a), b)


def subst(t, m, cache=None):
    """m: dict var-name -> T"""
    if cache is None:
        cache = {}
    ks = m.keys()

    def go(t):
        if not t.fv or t.fv.isdisjoint(ks):
            return t
        r = cache.get(t.id)
        if r is not None:
            return r
        if t.op == "var":
            r = m[t.args[0]]
        elif t.op == "app":
            r = mk("app", (t.args[0],) + tuple(go(a) for a in t.args[1:]), t.sort)
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        cache[t.id] = r
        return r
    return go(t)


def rebuild(t, args):
    o = t.op
    if o == "+":
        return add(*args)
    if o == "*":
        return mul(*args)
    if o == "/":
        return div(*args)
    if o == "^":
        return powr(args[0], args[1].args[0])
    if o == "ite":
        return ite(*args)
    if o == "lt":
        return lt(*args)
    if o == "le":
        return le(*args)
    if o == "eq":
        return eq(*args)
    if o == "and":
        return and_(*args)
    if o == "or":
        return or_(*args)
    if o == "not":
        return not_(*args)
    if o == "floor":
        return floor(args[0])
    if o == "app":
        return mk("app", args, t.sort)
    return mk(o, args, t.sort)


def map_terms(t, f):
    """bottom-up rewrite: f(term)->term or None"""
    cache = {}

    def go(t):
        r = cache.get(t.id)
        if r is not None:
            return r
        if t.op in ("var", "num", "true", "false"):
            r = t
        elif t.op == "app":
            r = mk("app", (t.args[0],) + tuple(go(a) for a in t.args[1:]), t.sort)
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        r2 = f(r)
        if r2 is not None:
            r = r2
        cache[t.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def floor(t):
    if isnum(t):
        f = t.args[0]
        return num(f.numerator // f.denominator, "I")
    if t.sort == "I":
        return t
    return mk("floor", (t,), "I")


def show(t, d=0):
    if d > 12:
        return "..."
    o = t.op
    if o == "num":
        f = t.args[0]
        return str(f) if f.denominator == 1 or len(str(f)) < 12 else repr(float(f))
    if o == "var":
        return t.args[0]
    if o in ("true", "false"):
        return o
    if o == "app":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d + 1) for a in t.args[1:]))
    if o in ("+", "*", "/", "and", "or", "^", "lt", "le", "eq"):
        s = {"and": " & ", "or": " | ", "lt": " < ", "le": " <= ", "eq": " == "}.get(o, o)
        return "(" + s.join(show(a, d + 1) for a in t.args) + ")"
    return "%s(%s)" % (o, ", ".join(show(a, d + 1) for a in t.args))


# ------------------------------------------------------------------ normal form
POS = set()        # names (vars / function symbols) declared strictly positive
ATOMS = {}         # key -> atom id
ATOM_INFO = {}     # id -> (kind, payload)
_aid = itertools.count(1)


class Poly:
    __slots__ = ("d", "_key")

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v != 0}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items()))
        return self._key

    def iszero(self):
        return not self.d

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


PZERO = Poly({})
PONE = Poly({(): Fraction(1)})


class Blowup(Exception):
    pass


MAXTERMS = 4000


def padd(a, b, k=1):
    d = dict(a.d)
    for m, c in b.d.items():
        d[m] = d.get(m, 0) + c * k
    return Poly(d)


def pscale(a, k):
    return Poly({m: c * k for m, c in a.d.items()})


def atom(kind, payload, keyx=None):
    key = (kind, keyx if keyx is not None else payload)
    i = ATOMS.get(key)
    if i is None:
        i = next(_aid)
        ATOMS[key] = i
        ATOM_INFO[i] = (kind, payload)
    return i


def is_ind(i):
    return ATOM_INFO[i][0] in ("lt", "le", "eq", "b")


def atom_pos(i):
    kind, p = ATOM_INFO[i]
    if kind == "t":
        if p.op in ("var", "app"):
            return p.args[0] in POS
    if kind == "P":
        return poly_pos(p)
    return False


def poly_pos(p):
    if not p.d:
        return False
    for m, c in p.d.items():
        if c <= 0:
            return False
        for a, e in m:
            if not (atom_pos(a) or (isinstance(e, (int, Fraction)) and e % 2 == 0 and False)):
                return False
    return True


def poly_sos(p):
    return bool(p.d) and all(c > 0 and all(atom_pos(a) or (Fraction(e).denominator == 1 and int(e) % 2 == 0) for a, e in m) for m, c in p.d.items())


def mono_mul(m1, m2):
    """returns (monomial, list of polys to be multiplied in)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        if a in d:
            if is_ind(a):
                continue
            d[a] = d[a] + e
        else:
            d[a] = e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif e >= 1 and ATOM_INFO[a][0] == "t" and ATOM_INFO[a][1].op == "num":
            k = int(e)
            r = e - k
            if r == 0:
                del d[a]
            else:
                d[a] = r
            extra = (extra or []) + [(nconst(ATOM_INFO[a][1].args[0]), k)]
        elif ATOM_INFO[a][0] == "P" and e >= 1:
            k = int(e)   # floor
            r = e - k
            if r == 0:
                del d[a]
            else:
                d[a] = r
            extra = (extra or []) + [(ATOM_INFO[a][1], k)]
        elif isinstance(e, (int, Fraction)) and e >= 2 and ATOM_INFO[a][0] == "t" and ATOM_INFO[a][1].op == "app" and ATOM_INFO[a][1].args[0] == "sin":
            # sin^2 = 1 - cos^2
            k = int(e) // 2
            r = e - 2 * k
            if r == 0:
                del d[a]
            else:
                d[a] = r
            ct = app("cos", list(ATOM_INFO[a][1].args[1:]))
            ca = next(iter(norm(ct).d))[0][0]
            extra = (extra or []) + [(Poly({(): Fraction(1), ((ca, 2),): Fraction(-1)}), k)]
    return tuple(sorted(d.items())), extra


def pmul(a, b):
    if len(a.d) > len(b.d):
        a, b = b, a
    if len(a.d) * len(b.d) > MAXTERMS:
        raise Blowup()
    out = {}
    extras = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, ex = mono_mul(m1, m2)
            if ex:
                extras.append((m, c1 * c2, ex))
            else:
                out[m] = out.get(m, 0) + c1 * c2
    r = Poly(out)
    for m, c, ex in extras:
        p = Poly({m: c})
        for q, k in ex:
            for _ in range(k):
                p = pmul(p, q)
        r = padd(r, p)
    return r


def lead(p):
    return min(p.d.items())


SIGNOF = None      # syntactic sign analysis of terms (set by vt.sym)


def content(p, positive_only=False, even=False):
    """split p = k * mono * q with q primitive-ish: lead coeff +-1.. returns (k, mono, q)"""
    ms = list(p.d)
    common = None
    for m in ms:
        dm = {a: e for a, e in m if not is_ind(a)}
        if common is None:
            common = dm
        else:
            c2 = {}
            for a in set(common) | set(dm):
                e1, e2 = common.get(a, 0), dm.get(a, 0)
                e = min(e1, e2)
                if e != 0:
                    c2[a] = e
            common = c2
    common = common or {}
    if positive_only:
        # a sum of squares in a denominator is positive wherever the expression is defined
        common = {a: e for a, e in common.items() if atom_pos(a) or (e < 0 and ATOM_INFO[a][0] == "P" and poly_sos(ATOM_INFO[a][1]))
                  or (e < 0 and ATOM_INFO[a][0] == "t" and SIGNOF is not None and SIGNOF(ATOM_INFO[a][1]))}
    mono = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in mono)
    q = Poly({_mono_mul_nox(m, inv): c for m, c in p.d.items()})
    if any(e < 0 and ATOM_INFO[a][0] == "P" for a, e in mono):
        q = _expand(q)
        if not q.d:
            return Fraction(1), (), q
    cs = list(q.d.values())
    k = Fraction(math.gcd(*[Fraction(c).numerator for c in cs]), math.lcm(*[Fraction(c).denominator for c in cs]))
    return k, mono, pscale(q, 1 / k)


def _expand(p):
    """multiply out whole powers of polynomial atoms"""
    out = PZERO
    for m, c in p.d.items():
        x = [(a, e) for a, e in m if ATOM_INFO[a][0] == "P" and e >= 1]
        if not x:
            out = padd(out, Poly({m: c}))
            continue
        r = Poly({tuple((a, e - int(e) if (a, e) in x else e) for a, e in m if not ((a, e) in x and e == int(e))): c})
        for a, e in x:
            for _ in range(int(e)):
                r = pmul(r, ATOM_INFO[a][1])
        out = padd(out, r)
    return out


def _mono_mul_nox(m1, m2):
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x == 0:
            d.pop(a, None)
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def ppow(p, q):
    q = Fraction(q)
    if q.denominator == 1 and q > 0:
        n = int(q)
        if len(p.d) > 1 and n > 6:
            raise Blowup()
        r = PONE
        for _ in range(n):
            r = pmul(r, p)
        return r
    if q == 0:
        return PONE
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if q.denominator == 1:
            if any(is_ind(a) for a, e in m):
                return Poly({((_patom(p), q),): Fraction(1)})
            return Poly({tuple((a, e * q) for a, e in m): c ** int(q)})
        # fractional power of a monomial
        if c > 0 and not any(is_ind(a) for a, e in m):
            inn, out = [], []
            for a, e in m:
                if atom_pos(a):
                    out.append((a, e * q))
                elif e * q == int(e * q) and (Fraction(e).denominator == 1 and int(e) % 2 == 0) and q.denominator == 2 and False:
                    out.append((a, e * q))
                else:
                    inn.append((a, e))
            r = _exact_root(c, q) if q > 0 else (_exact_root(1 / c, -q))
            base_c = Fraction(1)
            if r is None:
                ct = atom("t", num(c, "R"))
                POS_CONST.add(ct)
                out.append((ct, q - math.floor(q)))
                r = Fraction(c) ** math.floor(q)
            res = Poly({tuple(sorted(_merge(out))): r})
            if inn:
                inner = Poly({tuple(sorted(inn)): Fraction(1)})
                res = pmul(res, _ppow_atom(inner, q))
            return _fix_const(res)
        return _ppow_atom(p, q)
    if not p.d:
        return PZERO if q > 0 else Poly({((_patom(p), q),): Fraction(1)})
    if q.denominator == 1:
        k, mono, prim = content(p)
        s = 1
        if lead(prim)[1] < 0:
            prim = pscale(prim, -1)
            s = -1
        out = Poly({tuple((a, e * q) for a, e in mono): (k * s) ** int(q)})
        return pmul(out, Poly({((_patom(prim), q),): Fraction(1)}))
    k, mono, prim = content(p, positive_only=True)
    out = Poly({tuple((a, e * q) for a, e in mono): Fraction(1)})
    kk = ppow(Poly({(): k}), q)
    return pmul(pmul(out, kk), _ppow_atom(prim, q))


POS_CONST = set()


def _merge(items):
    d = {}
    for a, e in items:
        d[a] = d.get(a, 0) + e
    return [(a, e) for a, e in d.items() if e != 0]


def _fix_const(p):
    """constant atoms c^q with q>=1 or <=-1: fold integer part"""
    out = {}
    for m, c in p.d.items():
        mm = []
        for a, e in m:
            kind, pl = ATOM_INFO[a]
            if kind == "t" and pl.op == "num" and (e >= 1 or e < 0):
                k = e.numerator // e.denominator if isinstance(e, Fraction) else e
                c = c * pl.args[0] ** int(k)
                e = e - k
                if e == 0:
                    continue
            mm.append((a, e))
        out[tuple(mm)] = out.get(tuple(mm), 0) + c
    return Poly(out)


def _patom(p):
    return atom("P", p, p.key())


def _ppow_atom(p, q):
    """p^q with p as opaque base"""
    if q > 1:
        k = int(q)
        r = Poly({((_patom(p), q - k),): Fraction(1)})
        for _ in range(k):
            r = pmul(r, p)
        return r
    return Poly({((_patom(p), q),): Fraction(1)})


def norm(t):
    """T (real/int/bool) -> Poly"""
    if t._n is not None:
        return t._n
    r = _norm(t)
    t._n = r
    return r


def nconst(c):
    return Poly({(): Fraction(c)})


def _norm(t):
    o = t.op
    if o == "num":
        return nconst(t.args[0])
    if o == "true":
        return PONE
    if o == "false":
        return PZERO
    if o == "var":
        if t.sort == "B":
            return Poly({((atom("b", t, t.id), 1),): Fraction(1)})
        return Poly({((atom("t", t, t.id), 1),): Fraction(1)})
    if o == "+":
        d = {}
        for a in t.args:
            for m, c in norm(a).d.items():
                d[m] = d.get(m, 0) + c
        return Poly(d)
    if o == "*":
        r = PONE
        for a in t.args:
            r = pmul(r, norm(a))
        return r
    if o == "/":
        return pmul(norm(t.args[0]), ppow(norm(t.args[1]), -1))
    if o == "^":
        return ppow(norm(t.args[0]), t.args[1].args[0])
    if o == "ite":
        c = norm(t.args[0])
        a, b = norm(t.args[1]), norm(t.args[2])
        return padd(pmul(c, padd(a, b, -1)), b)
    if o == "and":
        r = PONE
        for a in t.args:
            r = pmul(r, norm(a))
        return r
    if o == "or":
        r = PONE
        for a in t.args:
            r = pmul(r, padd(PONE, norm(a), -1))
        return padd(PONE, r, -1)
    if o == "not":
        return padd(PONE, norm(t.args[0]), -1)
    if o in ("lt", "le", "eq"):
        d = padd(norm(t.args[0]), norm(t.args[1]), -1)
        isint = t.args[0].sort == "I" and t.args[1].sort == "I"
        return cmp_poly(o, d, isint)
    if o == "app":
        f = t.args[0]
        keys = tuple(norm(a).key() for a in t.args[1:])
        kind = "b" if t.sort == "B" else "t"
        ck = ("app", f, keys)
        a = ATOMS.get((kind, ck))
        if a is None:
            args = tuple(p2int(norm(x)) if x.sort == "I" and x.op in ("+", "*") else x for x in t.args[1:])
            a = atom(kind, mk("app", (f,) + args, t.sort), ck)
        return Poly({((a, 1),): Fraction(1)})
    if o == "floor":
        p = norm(t.args[0])
        return Poly({((atom("t", t, ("floor", p.key())), 1),): Fraction(1)})
    if o == "mod":
        return Poly({((atom("t", t, ("mod",) + tuple(norm(a).key() for a in t.args)), 1),): Fraction(1)})
    raise Blowup("norm: " + o)


def cmp_poly(o, d, isint):
    c = d.const()
    if c is not None:
        v = (c < 0) if o == "lt" else (c <= 0) if o == "le" else (c == 0)
        return PONE if v else PZERO
    if isint:
        if o == "le":
            d = padd(d, PONE, -1)     # d<=0 <=> d-1<0
            o = "lt"
        if o == "lt":
            if _intlead(d) < 0:
                q = padd(pscale(d, -1), PONE, -1)   # not(d<0) <=> -d<=0 <=> -d-1<0
                return padd(PONE, _ind("lt", q), -1)
            return _ind("lt", d)
        if _intlead(d) < 0:
            d = pscale(d, -1)
        return _ind("eq", d)
    k, mono, q = content(d, positive_only=True)
    if o == "eq":
        if lead(q)[1] < 0:
            q = pscale(q, -1)
        return _ind("eq", q)
    if lead(q)[1] < 0:
        q = pscale(q, -1)
        # d<0 <=> q>0 <=> not(q<=0) ; d<=0 <=> q>=0 <=> not (q<0)
        return padd(PONE, _ind("le" if o == "lt" else "lt", q), -1)
    return _ind(o, q)


def _intlead(d):
    for m, c in sorted(d.d.items()):
        if m != ():
            return c
    return d.d.get((), 1)


def _ind(o, q):
    return Poly({((atom(o, q, q.key()), 1),): Fraction(1)})


def p2t(p):
    """Poly -> T"""
    if not p.d:
        return ZERO
    ts = []
    for m, c in sorted(p.d.items()):
        ts.append(m2t(m, c))
    return add(*ts)


def atom_t(a):
    kind, pl = ATOM_INFO[a]
    if kind == "t":
        return pl
    if kind == "P":
        return p2t(pl)
    if kind == "b":
        return ite(pl, ONE, ZERO)
    z = num(0)
    if kind == "lt":
        return ite(lt(p2t(pl), z), ONE, ZERO)
    if kind == "le":
        return ite(le(p2t(pl), z), ONE, ZERO)
    if kind == "eq":
        return ite(eq(p2t(pl), z), ONE, ZERO)


def m2t(m, c):
    fs = [num(c, "I" if c.denominator == 1 and False else "R")]
    for a, e in m:
        fs.append(powr(atom_t(a), e))
    return mul(*fs)


def atom_fv(a):
    kind, pl = ATOM_INFO[a]
    if kind in ("t", "b"):
        return pl.fv
    s = frozenset()
    for m in pl.d:
        for b, e in m:
            s |= atom_fv(b)
    return s


def clear_denoms(p, limit=8):
    """multiply p by its negative-power multi-term atoms (assumed non-zero)."""
    for _ in range(limit):
        worst = None
        for m in p.d:
            for a, e in m:
                if e < 0 and ATOM_INFO[a][0] == "P":
                    if worst is None or ATOM_INFO[a][1].key().__len__() >= 0:
                        x = min((dict(mm).get(a, 0) for mm in p.d))
                        worst = (a, x)
        if worst is None:
            return p
        a, x = worst
        k = -x
        if Fraction(k).denominator == 1:
            k = int(k)
        else:
            import math
            k = math.ceil(k)
        p = pmul_pow(p, a, k)
    return p


def pmul_pow(p, a, k):
    # multiply by atom a^k ; expand where exponent becomes positive
    out = PZERO
    base = ATOM_INFO[a][1]
    for m, c in p.d.items():
        d = dict(m)
        e = d.get(a, 0) + k
        d.pop(a, None)
        kk = int(e // 1) if e > 0 else 0
        r = e - kk
        if r != 0:
            d[a] = r
        q = Poly({tuple(sorted(d.items())): c})
        for _ in range(kk):
            q = pmul(q, base)
        out = padd(out, q)
    return out


def prove_eq(a, b):
    """syntactic equality through the normal form"""
    try:
        d = padd(norm(a), norm(b), -1)
        if d.iszero():
            return True
        d = clear_denoms(d)
        return d.iszero()
    except Blowup:
        return False


# ------------------------------------------------------------------ indexed sums
SUMS = {}       # name -> (n T, body T over _b, argnames)
SUMKEY = {}
BV = var("_b", "I")
norm(BV)
COUNTS = {}


def is_index_var(name):
    return name.startswith("_")


def _canon_free(t, bound):
    """order of first occurrence of free index vars"""
    order = []
    seen = set()

    def go(t):
        if t.id in seen or not t.fv:
            return
        seen.add(t.id)
        if t.op == "var":
            if is_index_var(t.args[0]) and t.args[0] != bound and t.args[0] not in order:
                order.append(t.args[0])
            return
        for a in t.args:
            if isinstance(a, T):
                go(a)
    go(t)
    return order


def mk_sum(n, v, body, mask=None, lo=None):
    """sum over v in [lo or 0, n) of [mask] body, as a T in normal form.  v: var T"""
    if mask is not None:
        body = mul(ite(mask, ONE, ZERO), body)
    if lo is not None and not (isnum(lo) and lo.args[0] == 0):
        body = mul(ite(le(lo, v), ONE, ZERO), body)
    vn = v.args[0]
    if vn != "_b" and "_b" not in body.fv and "_b" not in n.fv:
        # the summation index is the oldest atom: comparisons in the summand get one orientation
        body = subst(body, {vn: BV})
        v, vn = BV, "_b"
    p = norm(body)
    res = PZERO
    for m, c in p.d.items():
        outer, inner = [], []
        for a, e in m:
            (inner if vn in atom_fv(a) else outer).append((a, e))
        res = padd(res, pmul(Poly({tuple(outer): c}), _sum_mono(n, vn, v, tuple(inner))))
    return p2t(res)


def _trivial_ind(a, n, vn):
    """True if indicator atom a is implied by 0<=v<n; False if contradicts; None"""
    kind, pl = ATOM_INFO[a]
    if kind != "lt":
        return None
    # pl < 0
    va = atom("t", var(vn, "I"), var(vn, "I").id)
    dn = padd(Poly({((va, 1),): Fraction(1)}), norm(n), -1)   # v - n
    x = padd(pl, dn, -1).const()
    if x is not None and x <= 0:
        return True           # v-n+x<0 implied
    # v + c < 0 : false if c>=0
    x = padd(pl, Poly({((va, 1),): Fraction(1)}), -1).const()
    if x is not None and x >= 0:
        return False
    x = padd(pl, Poly({((va, 1),): Fraction(-1)}), -1).const()
    if x is not None and x < 0:
        return True
    return None


def _sum_mono(n, vn, v, inner):
    if not inner:
        return norm(n)
    keep = []
    for a, e in inner:
        if is_ind(a):
            r = _trivial_ind(a, n, vn)
            if r is True:
                continue
            if r is False:
                return PZERO
            kind, pl = ATOM_INFO[a]
            if kind == "eq":
                # one-point rule
                va = atom("t", var(vn, "I"), var(vn, "I").id)
                mk_ = ((va, 1),)
                co = pl.d.get(mk_)
                rest = {m: c for m, c in pl.d.items() if m != mk_}
                if co in (1, -1) and not any(vn in atom_fv(b) for m in rest for b, _ in m):
                    e_ = p2int(Poly({m: -c / co for m, c in rest.items()}))
                    others = tuple(x for x in inner if x[0] != a)
                    body = subst(m2t(others, Fraction(1)), {vn: e_})
                    g = and_(le(num(0), e_), lt(e_, n))
                    return norm(mul(ite(g, ONE, ZERO), body))
        keep.append((a, e))
    if not keep:
        return norm(n)
    m = tuple(sorted(keep))
    t = m2t(m, Fraction(1))
    t = subst(t, {vn: BV})
    order = _canon_free(t, "_b")
    ren = {o: var("_a%d" % k, "I") for k, o in enumerate(order)}
    ct = subst(t, ren)
    key = norm(ct).key()
    allind = all(is_ind(a) for a, e in m)
    nm = SUMKEY.get(key)
    if nm is None:
        nm = ("CNT%d" if allind else "SUM%d") % (len(SUMKEY) + 1)
        SUMKEY[key] = nm
        SUMS[nm] = (var("_a%d" % len(order), "I"), ct, len(order) + 1)
    return norm(app(nm, [var(o, "I") for o in order] + [p2int(norm(n))], "I" if allind else "R"))


def p2int(p):
    """integer-valued Poly -> T of sort I"""
    ts = []
    for m, c in sorted(p.d.items()):
        fs = [num(c, "I")]
        for a, e in m:
            fs.append(powr(atom_t(a), e))
        ts.append(mul(*fs))
    return add(*ts) if ts else num(0)


# ------------------------------------------------------------------ linear (abstracting) export
class Lin:
    """export through the normal form: non-linear monomials and powers become uninterpreted functions of their atoms.
    Weaker than the exact export, so 'unsat' carries over."""

    def __init__(self):
        import z3
        self.z3 = z3
        self.bc, self.pc, self.ac, self.mc = {}, {}, {}, {}
        self.side = {}      # z3 ast id -> fact

    def real(self, x):
        return self.z3.ToReal(x) if x.sort() == self.z3.IntSort() else x

    def boolean(self, t):
        """-> (z3 Bool, side fact list)"""
        r = self.bc.get(t.id)
        if r is None:
            self.cur = []
            r = (self._bool(t), None)
            self.bc[t.id] = r
        return r[0]

    def _bool(self, t):
        z3 = self.z3
        r = self.bc.get(t.id)
        if r is not None:
            return r[0]
        o = t.op
        if o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        elif o == "and":
            r = z3.And(*[self._bool(a) for a in t.args])
        elif o == "or":
            r = z3.Or(*[self._bool(a) for a in t.args])
        elif o == "not":
            r = z3.Not(self._bool(t.args[0]))
        elif o in ("lt", "le", "eq") and not (t.args[0].sort == "B" or t.args[1].sort == "B"):
            d = padd(norm(t.args[0]), norm(t.args[1]), -1)
            x = self.poly(d, t.args[0].sort == "I" and t.args[1].sort == "I")
            r = x < 0 if o == "lt" else x <= 0 if o == "le" else x == 0
            if len(d.d) > 1 and x.sort() == z3.RealSort():
                k, mono, q = content(d, positive_only=True)
                if mono and q.d:
                    y = self.real(self.poly(q, False))
                    r2 = y < 0 if o == "lt" else y <= 0 if o == "le" else y == 0
                    self.side[r.get_id()] = (r, r == r2)
        elif o == "eq":
            r = self._bool(t.args[0]) == self._bool(t.args[1])
        elif o == "ite":
            r = z3.If(self._bool(t.args[0]), self._bool(t.args[1]), self._bool(t.args[2]))
        elif o == "var":
            r = z3.Bool(t.args[0])
        elif o == "app":
            r = self.app(t)
        else:
            raise Blowup("lin " + o)
        self.bc[t.id] = (r, None)
        return r

    def app(self, t):
        z3 = self.z3
        args = []
        for a in t.args[1:]:
            if a.sort == "B":
                args.append(self._bool(a))
            else:
                args.append(self.poly(norm(a), a.sort == "I"))
        rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[t.sort]
        nm = "L" + t.args[0] + "".join("i" if x.sort() == z3.IntSort() else "r" if x.sort() == z3.RealSort() else "b" for x in args)
        if not args:
            return z3.Const(nm, rs)
        return z3.Function(nm, *[x.sort() for x in args], rs)(*args)

    def atom(self, a):
        r = self.ac.get(a)
        if r is not None:
            return r
        z3 = self.z3
        kind, pl = ATOM_INFO[a]
        if kind == "t":
            if pl.op == "var":
                r = z3.Const(pl.args[0], {"R": z3.RealSort(), "I": z3.IntSort()}[pl.sort])
            elif pl.op == "app":
                r = self.app(pl)
            elif pl.op == "floor":
                x = self.poly(norm(pl.args[0]), False)
                r = z3.ToInt(x)
            else:
                r = z3.Const("atom%d" % a, z3.IntSort() if pl.sort == "I" else z3.RealSort())
        elif kind == "P":
            r = self.poly(pl, False)
        elif kind == "b":
            r = self._bool(pl)
        else:
            x = self.poly(pl, None)
            r = x < 0 if kind == "lt" else x <= 0 if kind == "le" else x == 0
        self.ac[a] = r
        return r

    def mono(self, m):
        r = self.mc.get(m)
        if r is not None:
            return r
        z3 = self.z3
        inds, fs, sg = [], [], []
        for a, e in m:
            if is_ind(a):
                inds.append(self.atom(a))
            else:
                fs.append((a, e))
        if not fs:
            r = z3.IntVal(1)
        elif len(fs) == 1 and fs[0][1] == 1:
            r = self.atom(fs[0][0])
        else:
            args = [self.real(self.atom(a)) for a, e in fs]
            allint = all(isinstance(e, int) or e.denominator == 1 for a, e in fs) and all(self.atom(a).sort() == z3.IntSort() and e > 0 for a, e in fs)
            nm = "nl" + "_".join(str(e).replace("/", "o") for a, e in fs)
            r = z3.Function(nm + ("I" if allint else ""), *[z3.RealSort()] * len(args), z3.IntSort() if allint else z3.RealSort())(*args)
            if self.signof is not None:
                s = self.signof(m2t(tuple(fs), Fraction(1)))
                if s:
                    self.side[r.get_id()] = (r, r > 0 if s == "pos" else r >= 0)
        if inds:
            r = z3.If(z3.And(*inds) if len(inds) > 1 else inds[0], r, z3.IntVal(0) if r.sort() == z3.IntSort() else z3.RealVal(0))
        self.mc[m] = r
        return r

    signof = None

    def signs(self, s, exprs):
        """sign facts of the opaque monomials that occur in the solver's assertions"""
        if not self.side:
            return
        seen, todo, add_ = set(), list(exprs), []
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            f = self.side.get(i)
            if f is not None:
                add_.append(f[1])
                todo.append(f[1])
            todo += x.children()
        for f in add_:
            s.add(f)

    def poly(self, p, isint):
        key = (p.key(), isint)
        r = self.pc.get(key)
        if r is not None:
            return r
        z3 = self.z3
        ts = [(c, self.mono(m)) for m, c in p.key()]
        if isint is None:
            isint = all(c.denominator == 1 and x.sort() == z3.IntSort() for c, x in ts)
        if isint and not all(c.denominator == 1 and x.sort() == z3.IntSort() for c, x in ts):
            isint = False
            coerce = True
        else:
            coerce = False
        out = []
        for c, x in ts:
            if isint:
                x = x * int(c) if c != 1 else x
            else:
                x = self.real(x)
                x = x * z3.RealVal(str(c)) if c != 1 else x
            out.append(x)
        if not out:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = out[0] if len(out) == 1 else z3.Sum(*out)
        if coerce:
            r = z3.ToInt(r)
        self.pc[key] = r
        return r


# ------------------------------------------------------------------ z3 export
def to_z3(t, env=None):
    import z3
    env = {} if env is None else env
    zc = env.setdefault("cache", {})

    def real(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    def go(t):
        r = zc.get(t.id)
        if r is not None:
            return r
        o = t.op
        if o == "num":
            f = t.args[0]
            r = z3.IntVal(int(f)) if (t.sort == "I" and f.denominator == 1) else z3.RealVal(str(f))
        elif o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        elif o == "var":
            s = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[t.sort]
            r = z3.Const(t.args[0], s)
        elif o == "app":
            args = []
            for a in t.args[1:]:
                x = go(a)
                args.append(x)
            sig = [x.sort() for x in args]
            rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[t.sort]
            nm = t.args[0] + "".join("i" if s == z3.IntSort() else "r" if s == z3.RealSort() else "b" for s in sig)
            if not args:
                r = z3.Const(nm, rs)
            else:
                r = z3.Function(nm, *sig, rs)(*args)
        elif o in ("+", "*"):
            xs = [go(a) for a in t.args]
            if t.sort == "R" or any(x.sort() != z3.IntSort() for x in xs):
                xs = [real(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = (r + x) if o == "+" else (r * x)
        elif o == "/":
            r = real(go(t.args[0])) / real(go(t.args[1]))
        elif o == "^":
            q = t.args[1].args[0]
            x = go(t.args[0])
            if q.denominator == 1 and 0 < q <= 6:
                r = x
                for _ in range(int(q) - 1):
                    r = r * x
            elif q.denominator == 1 and -6 <= q < 0:
                x = real(x)
                r = x
                for _ in range(int(-q) - 1):
                    r = r * x
                r = 1 / r
            elif q == Fraction(1, 2):
                r = z3.Function("sqrt", z3.RealSort(), z3.RealSort())(real(x))
            elif q == Fraction(-1, 2):
                r = 1 / z3.Function("sqrt", z3.RealSort(), z3.RealSort())(real(x))
            else:
                r = z3.Function("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())(real(x), z3.RealVal(str(q)))
        elif o == "ite":
            c, a, b = (go(x) for x in t.args)
            if a.sort() != b.sort():
                a, b = real(a), real(b)
            r = z3.If(c, a, b)
        elif o in ("lt", "le", "eq"):
            a, b = go(t.args[0]), go(t.args[1])
            if a.sort() != b.sort():
                a, b = real(a), real(b)
            r = a < b if o == "lt" else a <= b if o == "le" else a == b
        elif o == "and":
            r = z3.And(*[go(a) for a in t.args])
        elif o == "or":
            r = z3.Or(*[go(a) for a in t.args])
        elif o == "not":
            r = z3.Not(go(t.args[0]))
        elif o == "floor":
            r = z3.ToInt(real(go(t.args[0])))
        elif o == "mod":
            r = go(t.args[0]) % go(t.args[1])
        else:
            raise ValueError(o)
        zc[t.id] = r
        return r
    return go(t)
