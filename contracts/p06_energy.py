"""E01: energies; E02: nearest neighbours."""
from vt.api import contract, product, abstraction
from contracts.common import *

FN = "clustertools.analysis.functions."
CL = "clustertools.cluster.cluster.StarCluster."
ANALYZE = CL + "analyze"
DIST = "clustertools.util.recipes.distance"
PE = FN + "_potential_energy"
PHYS = ["pckms", "kpckms", "pcmyr", "kpcgyr"]
G0 = "0.004302"                     # pc (km/s)^2 / Msun


def sep2(a, i, b, j, projected=False):
    q = (a.x[i] - b.x[j]) ** 2 + (a.y[i] - b.y[j]) ** 2
    return q if projected else q + (a.z[i] - b.z[j]) ** 2


class Table:
    """n stars with positions and masses, and the (n,4) array the kernels take"""

    def __init__(self, S, prefix="", big=False):
        self.n = S.int(prefix + "n", lo=1, gen=(lambda r: r.integers(300, 700)) if big else None)
        for k in "xyz":
            setattr(self, k, S.arr(prefix + k, self.n))
        self.m = S.arr(prefix + "m", self.n, pos=True)
        self.arr = S.np.array([self.x, self.y, self.z, self.m]).T


def pair(S, a, i, b, j, soft, projected=False):
    """potential energy of a pair for unit gravitational constant"""
    return -a.m[i] * b.m[j] / S.sqrt(sep2(a, i, b, j, projected) + soft ** 2)


def distinct(S, o, projected=False):
    S.require_pairs("x", o.n if hasattr(o, "n") else o.ntot, lambda i, j: sep2(o, i, o, j, projected) > 0)


@contract("E01", [PE, PE + "_parallel", DIST], cases=product(fn=["", "_parallel"], soft=[False, True]), trials=8)
def pair_sums(S, fn, soft):
    """every pair contributes once to each of its stars; in the parallel version no two iterations write one cell"""
    o = Table(S, big=fn == "_parallel")
    eps = S.real("soft", nonneg=True) if soft else 0
    distinct(S, o)
    got = S.call(PE + fn, o.arr, eps)
    S.eq("one value per star", S.len(got), o.n)
    for k in S.each(o.n):
        f = lambda j: pair(S, o, k, o, j, eps)
        S.lemma_others("all other stars", o.n, k, f)
        S.eq("sum over all other stars", got[k], S.others(o.n, k, f))


@contract("E01", [PE + "_subset", PE + "_subset_parallel", DIST], cases=product(fn=["", "_parallel"], soft=[False, True]), trials=8)
def subset_sums(S, fn, soft):
    a, b = Table(S, "a"), Table(S, "b")
    eps = S.real("soft", nonneg=True) if soft else 0
    got = S.call(PE + "_subset" + fn, a.arr, b.arr, eps)
    S.eq("one value per chosen star", S.len(got), a.n)
    for k in S.each(a.n):
        S.eq("sum over all stars at non-zero separation", got[k],
             S.sum_of(b.n, lambda j: S.ite(S.sqrt(sep2(a, k, b, j)) != 0, pair(S, a, k, b, j, eps), 0)))


class Cols4:
    def __init__(self, a):
        self.x, self.y, self.z, self.m = [a[:, k] for k in range(4)]


def need_distinct(S, o, n):
    for i in S.each(n):
        for j in S.each(n):
            S.ensure("callee precondition: no two stars at the same place", S.or_(i == j, sep2(o, i, o, j) > 0))


def full_abs(S, a, k):
    o = Cols4(a[0])
    n = S.len(o.m)
    soft = a[1] if len(a) > 1 else 0
    need_distinct(S, o, n)
    return S.array_of(n, lambda i: S.others(n, i, lambda j: pair(S, o, i, o, j, soft)))


def sub_abs(S, a, k):
    o, b = Cols4(a[0]), Cols4(a[1])
    soft = a[2] if len(a) > 2 else 0


    def row(x, y, z, m):
        def term(j):
            q = (x - b.x[j]) ** 2 + (y - b.y[j]) ** 2 + (z - b.z[j]) ** 2
            return S.ite(S.sqrt(q) != 0, -m * b.m[j] / S.sqrt(q + soft ** 2), 0)
        return S.sum_of(S.len(b.m), term)
    return S.map_rows([o.x, o.y, o.z, o.m], row)


for _f in ("", "_parallel"):
    abstraction(PE + _f, by=["pair_sums"])(full_abs)
    abstraction(PE + "_subset" + _f, by=["subset_sums"])(sub_abs)
KERNELS = [PE, PE + "_parallel", PE + "_subset", PE + "_subset_parallel"]
ENERGY = ("kin", "pot", "etot", "ektot", "ptot", "qvir")
SAVED = ("units0", "origin0", "rorder0", "rorder_origin0")


def grav(S, c, u):
    L, V, M, T = factors(S, c, u)
    if u in ("nbody", "galpy", "WDunits"):
        return 1
    return S.q(G0) * M / (L * V * V)


def analysed(S, c):
    """distances and speeds as analyze() leaves them"""
    c.r = S.sqrt(c.x ** 2 + c.y ** 2 + c.z ** 2)
    c.v = S.sqrt(c.vx ** 2 + c.vy ** 2 + c.vz ** 2)
    c.rpro = S.sqrt(c.x ** 2 + c.y ** 2)
    c.vpro = S.sqrt(c.vx ** 2 + c.vy ** 2)
    return c


def kinetic(c, k, specific, projected):
    v2 = c.vx[k] ** 2 + c.vy[k] ** 2
    if not projected:
        v2 = v2 + c.vz[k] ** 2
    return v2 / 2 if specific else c.m[k] * v2 / 2


def potential(S, c, k, g, specific, projected, soft):
    f = lambda j: g * (-c.m[j] if specific else -c.m[j] * c.m[k]) / S.sqrt(sep2(c, k, c, j, projected) + soft ** 2)
    apart = lambda j: S.sqrt(sep2(c, k, c, j, projected) + soft ** 2) != 0
    S.lemma_sum_eq("other stars are at non-zero separation", c.ntot, lambda j: S.ite(j == k, 0, f(j)), lambda j: S.ite(S.and_(j != k, apart(j)), f(j), 0))
    return S.others(c.ntot, k, f)


@contract("E01", [FN + "energies", CL + "energies", CL + "add_energies"],
          cases=product(units=["pckms", "nbody"], specific=[True, False], projected=[False, True], way=["full", "parallel", "loop"]) +
          product(units=["kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits"], specific=[True], projected=[False], way=["full"]), uses=[ANALYZE] + KERNELS, trials=4)
def star_energies(S, units, specific, projected, way):
    c = analysed(S, S.cluster(units=units))
    soft = S.real("soft", nonneg=True)
    distinct(S, c, projected)
    old = S.snap(c)
    kin, pot = S.call(c.energies, specific=specific, projected=projected, softening=soft, full=way != "loop", parallel=way == "parallel")
    S.eq("one kinetic energy per star", S.len(kin), c.ntot)
    S.eq("one potential energy per star", S.len(pot), c.ntot)
    g = grav(S, c, units)
    for k in S.each(c.ntot):
        S.eq("kinetic energy is half the square of the speed (times the mass)", kin[k], kinetic(c, k, specific, projected))
        S.eq("potential energy is the sum over all other stars", pot[k], potential(S, c, k, g, specific, projected, soft))
    S.eq("stored kinetic energies", c.kin, kin)
    S.eq("stored potential energies", c.pot, pot)
    S.eq("total energy of each star", c.etot, kin + pot)
    S.eq("total kinetic energy", c.ektot, S.sum(kin))
    S.eq("virial ratio of a cluster of at least two stars", S.ite(c.ntot < 2, c.ektot, c.qvir * S.sum(pot) / 2), c.ektot)
    S.eq("total potential energy counts every pair once", c.ptot, S.sum(pot) / 2)
    frame(S, c, old, ENERGY + SAVED + tuple(DERIVED))


@contract("E01", [FN + "energies", CL + "energies", CL + "add_energies"],
          cases=product(specific=[True, False], projected=[False, True], how=["mask", "parallel", "ids", "one"]), uses=[ANALYZE] + KERNELS, trials=4)
def chosen_energies(S, specific, projected, how):
    """energies of chosen stars are those stars' energies in the whole cluster"""
    c = analysed(S, S.cluster())
    n = c.ntot
    soft = S.real("soft", nonneg=True)
    distinct(S, c, projected)
    if how in ("mask", "parallel"):
        ids = S.arr("mask", n, dt="b")
        mask = ids
    elif how == "ids":
        ids = S.arr("want", S.int("nw", lo=1), dt="i")
        mask = S.np.isin(c.id, ids)
    else:
        ids = S.int("want")
        mask = c.id == ids
    old = S.snap(c)
    kin, pot = S.call(c.energies, ids=ids, specific=specific, projected=projected, softening=soft, parallel=how == "parallel")
    S.eq("kinetic energies of the chosen stars", kin, S.array_of(n, lambda k: kinetic(old, k, specific, projected))[mask])
    P = S.array_of(n, lambda k: others_sep(S, old, k, S.q(G0), specific, projected, soft))
    S.eq("potential energies of the chosen stars", pot, P[mask])
    for k in S.each(n):
        self_only(S, old, k, specific, projected, soft)
        S.eq("the same potential energy as in the whole cluster", P[k], potential(S, old, k, S.q(G0), specific, projected, soft))
        S.eq("stored kinetic energy (zero for other stars)", c.kin[k], S.ite(mask[k], kinetic(old, k, specific, projected), 0))
        S.eq("stored potential energy (zero for other stars)", c.pot[k], S.ite(mask[k], P[k], 0))
        S.eq("stored total energy", c.etot[k], c.kin[k] + c.pot[k])
    frame(S, c, old, ENERGY + SAVED + tuple(DERIVED))


def self_only(S, c, k, specific, projected, soft):
    f = lambda j: S.q(G0) * (-c.m[j] if specific else -c.m[j] * c.m[k]) / S.sqrt(sep2(c, k, c, j, projected) + soft ** 2)
    S.lemma_sum_eq("a star is at zero separation from itself only", c.ntot, lambda j: S.ite(S.sqrt(sep2(c, k, c, j, projected)) != 0, f(j), 0),
                   lambda j: S.ite(j == k, 0, f(j)))


def others_sep(S, c, k, g, specific, projected, soft):
    return S.sum_of(c.ntot, lambda j: S.ite(S.sqrt(sep2(c, k, c, j, projected)) != 0,
                                            g * (-c.m[j] if specific else -c.m[j] * c.m[k]) / S.sqrt(sep2(c, k, c, j, projected) + soft ** 2), 0))


@contract("E01", [FN + "energies", CL + "energies"], cases=product(origin=["centre", "galaxy"], projected=[False, True], way=["full", "loop"]) , uses=[ANALYZE] + KERNELS, trials=4)
def origin_energies(S, origin, projected, way):
    """energies refer to the cluster frame, whatever origin the stars are given in, and the frame is restored"""
    c = analysed(S, S.cluster(origin=origin))
    distinct(S, c, projected)
    old = S.snap(c)
    kin, pot = S.call(c.energies, projected=projected, full=way != "loop")
    dv = [0, 0, 0] if origin == "centre" else [c.vxgc, c.vygc, c.vzgc]
    for k in S.each(c.ntot):
        v2 = (old.vx[k] - dv[0]) ** 2 + (old.vy[k] - dv[1]) ** 2
        if not projected:
            v2 = v2 + (old.vz[k] - dv[2]) ** 2
        S.eq("kinetic energy relative to the cluster", kin[k], v2 / 2)
        S.eq("potential energy does not depend on the origin", pot[k], potential(S, old, k, S.q(G0), True, projected, 0))
    frame(S, c, old, ENERGY + SAVED + tuple(DERIVED))


@contract("E01", [FN + "energies", CL + "energies"], cases=product(u=["pckms", "kpckms", "pcmyr", "kpcgyr"], t=["pckms", "kpckms", "pcmyr", "kpcgyr"]), uses=[ANALYZE] + KERNELS, trials=3)
def converted_energies(S, u, t):
    """energies before and after a change of units differ by the square of the velocity unit"""
    c = analysed(S, S.cluster(units=u))
    distinct(S, c)
    old = S.snap(c)
    a = S.call(c.energies)
    S.call(c.to_units, t)
    b = S.call(c.energies)
    q = (factors(S, old, u)[1] / factors(S, old, t)[1]) ** 2
    for k in S.each(c.ntot):
        S.eq("kinetic energy in the new units", b[0][k], a[0][k] * q)
        S.eq("potential energy in the new units", b[1][k], a[1][k] * q)


@contract("E01", [FN + "closest_star", CL + "closest_star"], cases=product(projected=[False, True], argument=[False, True]), trials=10)
def nearest(S, projected, argument):
    c = S.cluster()
    n = c.ntot
    S.require(n >= 2)
    distinct(S, c, projected)
    old = S.snap(c)
    got = S.call(c.closest_star, projected=projected, argument=argument)
    d = got[0] if argument else got
    S.eq("one distance per star", S.len(d), n)
    S.eq("distances stored", c.dclosest, d)
    for i in S.each(n):
        for j in S.each(n):
            sep = S.sqrt(sep2(c, i, c, j, projected))
            S.ensure("no other star is closer", S.or_(i == j, d[i] <= sep * (1 + S.tol)))
        if argument:
            a = got[1][i]
            S.ensure("the neighbour is another star", S.and_(a >= 0, a < n, a != i))
            S.eq("the neighbour is at that distance", S.sqrt(sep2(c, i, c, a, projected)), d[i])
        else:
            others = S.sqrt(sep2(c, i, c, S.np.arange(0, n), projected))
            S.eq("the distance to the closest other star", d[i], S.np.amin(others[S.np.arange(0, n) != i]))
    frame(S, c, old, ("dclosest", "argclosest"))


WIDS = FN + "_weighted_inverse_distance_sum"


def pairs_sum(S, c, n, projected):
    return S.sum_of(n - 1, lambda i: S.sum_of(n - 1 - i, lambda j: c.m[i] * c.m[i + 1 + j] / S.sqrt(sep2(c, i, c, i + 1 + j, projected))))


@contract("E01", [WIDS, DIST], trials=8)
def inverse_distances(S):
    o = Table(S)
    distinct(S, o)
    S.eq("every pair of stars once", S.call(WIDS, o.arr), pairs_sum(S, o, o.n, False))


@abstraction(WIDS, by=["inverse_distances"])
def wids_abs(S, a, k):
    o = Cols4(a[0])
    n = S.len(o.m)
    need_distinct(S, o, n)
    return pairs_sum(S, o, n, False)


@contract("E01", [FN + "virial_radius", FN + "virial_radius_inverse_distance", CL + "virial_radius"],
          cases=product(projected=[False, True], full=[True, False], origin=ORIGINS), uses=[ANALYZE, WIDS], trials=4)
def virial_radius_pairs(S, projected, full, origin):
    c = S.cluster(origin=origin)
    S.require(c.ntot >= 2)
    distinct(S, c, projected)
    old = S.snap(c)
    rv = S.call(c.virial_radius, projected=projected, full=full)
    S.eq("virial radius from the sum over pairs", rv, S.sum(old.m) ** 2 / (2 * pairs_sum(S, old, c.ntot, projected)))
    S.eq("stored", c.rv, rv)
    frame(S, c, old, ("rv",) + SAVED + tuple(DERIVED))
