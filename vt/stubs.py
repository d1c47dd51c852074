"""Contract models of the other dependencies (galpy, numba, scipy, astropy, ...), and real stdlib pass-through."""
import sys, types, importlib
from fractions import Fraction
from . import sym, terms as tm, npmodel as npm
from .sym import Unsupported, wrapn, tof, tnum, SArr, SNum, CArr
from .terms import app, num, add, mul, div, powr, neg, sub


class Mod:
    """namespace whose unknown members are Unsupported when used"""

    def __init__(self, name, **kw):
        self.__dict__["_n"] = name
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self._n + "." + k)


class Opaque:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self.n)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self.n + "." + k)


# ---- galpy.util.conversion : physical conversion factors, positive functions of (vo, ro)
def _fac(name):
    def f(vo=Fraction(220), ro=Fraction(8)):
        tm.POS.add(name)
        return wrapn(app(name, [tnum(vo), tnum(ro)]))
    return f


_VKPC = Fraction("1.0227121655399913")      # (km/s) in kpc/Gyr as in galpy


def velocity_in_kpcGyr(vo=Fraction(220), ro=Fraction(8)):
    return vo * _VKPC


def time_in_Gyr(vo=Fraction(220), ro=Fraction(8)):
    return ro / vo / _VKPC


conversion = Mod("galpy.util.conversion", mass_in_msol=_fac("g_mass_in_msol"), time_in_Gyr=time_in_Gyr,
                 velocity_in_kpcGyr=velocity_in_kpcGyr, dens_in_msolpc3=_fac("g_dens_in_msolpc3"))
for _k in ("force_in_2piGmsolpc2", "surfdens_in_msolpc2", "force_in_pcMyr2", "mass_in_1010msol"):
    conversion.__dict__[_k] = _fac("g_" + _k)


def rect_to_cyl(X, Y, Z):
    R = npm.sqrt(X ** 2 + Y ** 2)
    return R, npm.arctan2(Y, X), Z


def rect_to_cyl_vec(vx, vy, vz, X, Y, Z, cyl=False):
    if cyl:
        R, phi, Z = X, Y, Z
        c, s = npm.cos(phi), npm.sin(phi)
    else:
        R, phi, Z = rect_to_cyl(X, Y, Z)
        c, s = npm.cos(phi), npm.sin(phi)
    return vx * c + vy * s, vy * c - vx * s, vz


def cyl_to_rect(R, phi, Z):
    return R * npm.cos(phi), R * npm.sin(phi), Z


def cyl_to_rect_vec(vr, vt, vz, phi):
    c, s = npm.cos(phi), npm.sin(phi)
    return vr * c - vt * s, vr * s + vt * c, vz


class CoordsMod(Mod):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "mass_in_msol":
            raise AttributeError("module 'galpy.util.coords' has no attribute %r" % k)
        return Opaque("galpy.util.coords." + k)


coords = CoordsMod("galpy.util.coords", rect_to_cyl=rect_to_cyl, rect_to_cyl_vec=rect_to_cyl_vec,
                   cyl_to_rect=cyl_to_rect, cyl_to_rect_vec=cyl_to_rect_vec)


def rotate_to_arbitrary_vector(v, a, inv=False, _dontcutsmall=False):
    raise Unsupported("_rotate_to_arbitrary_vector")


HOOKS = {}      # per-contract overrides, e.g. Orbit


class OrbitProxy:
    def __call__(self, *a, **k):
        h = HOOKS.get("Orbit")
        if h is None:
            raise Unsupported("galpy Orbit")
        return h(*a, **k)

    def from_name(self, *a, **k):
        raise Unsupported("Orbit.from_name")


Orbit = OrbitProxy()


class PotMod(Mod):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        h = HOOKS.get("potential." + k)
        return h if h is not None else Opaque("galpy.potential." + k)


potential = PotMod("galpy.potential")


# ---- numba
def jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def _prange(*a):
    from .runtime import VRange
    r = VRange(*a)
    r.parallel = True
    return r


numba = Mod("numba", njit=jit, jit=jit, prange=_prange)


def curve_fit(f, x, y, p0=None, **k):
    h = HOOKS.get("curve_fit")
    if h is None:
        raise Unsupported("curve_fit")
    return h(f, x, y, p0)


class KDTree:
    """contract of scipy.spatial.cKDTree for queries at the tree's own points: column 0 is the point itself at distance 0,
    column 1 the least distance to any other point and one point at that distance"""

    def __init__(self, data, *a, **k):
        if not isinstance(data, npm.Cols) or a or k:
            raise Unsupported("cKDTree")
        self.cols = data.cols

    def query(self, x, k=1, **kw):
        if kw or not isinstance(k, int) or k < 2 or not isinstance(x, npm.Cols) or len(x.cols) != len(self.cols) or any(a is not b for a, b in zip(x.cols, self.cols)):
            raise Unsupported("cKDTree.query")
        cols = [c.dense() for c in self.cols]
        n = cols[0].n
        if not sym.CTX.branch(tm.le(num(k), n)):
            raise Unsupported("cKDTree.query with fewer points than neighbours")
        if k > 2:
            return self.neighbours(cols, n, k)
        i = tm.var(sym.CTX.fresh("q"), "I")

        def d2(j):
            r = tm.ZERO
            for c in cols:
                r = add(r, powr(sub(tm.subst(c.e, {"_i0": i}), tm.subst(c.e, {"_i0": j})), 2))
            return powr(r, Fraction(1, 2))
        other = SArr(n, d2(tm.IX), "f", tm.not_(tm.eq(tm.IX, i)))
        w = sym.arg_ext(other, "min")
        dmin = d2(w)
        nm = "kdarg%d" % next(sym.CTX.uid)
        arg = app(nm, [tm.IX], "I")
        back = {i.args[0]: tm.IX}
        dm = SArr(n, tm.subst(dmin, back), "f")

        def ax(args):
            a = app(nm, args, "I")
            g = sym.in_rng(args[0], n)
            return [tm.implies(g, tm.and_(sym.in_rng(a, n), tm.not_(tm.eq(a, args[0])))),
                    tm.implies(g, tm.eq(tm.subst(d2(a), {i.args[0]: args[0]}), tm.subst(dmin, {i.args[0]: args[0]})))]
        sym.AXIOMS[nm] = ax
        return (npm.Cols([SArr(n, tm.ZERO, "f"), dm]), npm.Cols([SArr(n, tm.IX, "i"), SArr(n, arg, "i")]))


    def neighbours(self, cols, n, k):
        """k columns: distinct points in order of increasing distance, starting with the point itself; no other point is closer than
        the last column (instantiated for pairs of queried and other indices by the contracts that need it)"""
        # a common positive factor of all coordinates scales the distances and leaves the neighbours
        tot = tm.PZERO
        for j, c in enumerate(cols):
            tot = tm.padd(tot, tm.pmul(tm.norm(c.e), tm.norm(tm.var("_kdcol%d" % j))))
        kk, mono, _ = tm.content(tot, positive_only=True)
        scale = tm.p2t(tm.Poly({mono: kk}))
        cols = [SArr(n, tm.div(c.e, scale), "f") for c in cols]
        key = (tm.norm(n).key(), tuple(tm.norm(c.e).key() for c in cols), k)
        nm = _KD.get(key)
        if nm is None:
            nm = _KD[key] = "kdnn%d_" % next(sym.CTX.uid)
            i = tm.var("_kq", "I")

            def d(a, b):
                r = tm.ZERO
                for c in cols:
                    r = add(r, powr(sub(tm.subst(c.e, {"_i0": a}), tm.subst(c.e, {"_i0": b})), 2))
                return powr(r, Fraction(1, 2))

            def A(j, t):
                return t if j == 0 else app(nm + "a%d" % j, [t], "I")

            def D(j, t):
                return tm.ZERO if j == 0 else app(nm + "d%d" % j, [t], "R")

            def ax(args):
                t = args[0]
                g = sym.in_rng(t, n)
                fs = []
                for j in range(1, k):
                    fs += [sym.in_rng(A(j, t), n), tm.le(D(j - 1, t), D(j, t)), tm.eq(D(j, t), d(t, A(j, t)))]
                    fs += [tm.not_(tm.eq(A(j, t), A(l, t))) for l in range(j)]
                return [tm.implies(g, f) for f in fs]
            for j in range(1, k):
                sym.AXIOMS[nm + "a%d" % j] = ax
                sym.AXIOMS[nm + "d%d" % j] = ax
        I = tm.IX
        dd = [SArr(n, tm.ZERO, "f")] + [SArr(n, tm.mul(scale, app(nm + "d%d" % j, [I], "R")), "f") for j in range(1, k)]
        aa = [SArr(n, I, "i")] + [SArr(n, app(nm + "a%d" % j, [I], "I"), "i") for j in range(1, k)]
        return npm.Cols(dd), npm.Cols(aa)


_KD = {}
_plt = Mod("matplotlib.pyplot")
FILES = {}


def vopen(*a, **k):
    h = HOOKS.get("open")
    if h is None:
        raise Unsupported("open()")
    return h(*a, **k)


def get(name, fromlist):
    if name in ("amuse", "limepy", "h5py") or name.startswith("amuse."):
        raise ImportError("No module named %r" % name)
    if name == "numpy":
        return npm.NP
    if name == "numba":
        return numba
    if name == "galpy.util":
        return Mod("galpy.util", coords=coords, conversion=conversion,
                   _rotate_to_arbitrary_vector=lambda *a, **k: (HOOKS.get("rotvec") or rotate_to_arbitrary_vector)(*a, **k))
    if name == "galpy":
        return Mod("galpy", potential=potential)
    if name == "galpy.orbit":
        return Mod("galpy.orbit", Orbit=Orbit)
    if name == "galpy.potential":
        return potential
    if name.startswith("galpy.util.bovy"):
        raise ImportError(name)
    if name == "scipy.spatial":
        return Mod("scipy.spatial", cKDTree=KDTree, KDTree=KDTree)
    if name == "scipy.optimize":
        return Mod("scipy.optimize", curve_fit=curve_fit)
    if name.split(".")[0] in ("scipy", "astropy", "matplotlib", "galpy", "h5py", "limepy"):
        if name == "matplotlib.pyplot" and not fromlist:
            return Mod("matplotlib", pyplot=_plt)
        return Mod(name)
    if name in ("copy", "os", "struct", "sys", "time", "math", "logging", "textwrap", "warnings", "itertools", "functools"):
        if name == "copy":
            return COPY
        if name == "os" or name == "struct":
            h = HOOKS.get(name)
            if h is not None:
                return h
        return None
    return None


class _Copy:
    @staticmethod
    def copy(x):
        if isinstance(x, (SArr, SNum)):
            return x.copy()
        import copy
        return copy.copy(x)

    @staticmethod
    def deepcopy(x):
        import copy
        return copy.deepcopy(x)

    def __call__(self, x):
        return _Copy.copy(x)


COPY = _Copy()
