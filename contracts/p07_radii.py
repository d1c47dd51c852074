"""L01: Lagrange radii; R01: relaxation times."""
from vt.api import contract, product, abstraction
from contracts.common import *
from contracts.p02_origin import mass_radius

FN = "clustertools.analysis.functions."
CL = "clustertools.cluster.cluster.StarCluster."
SAVED = ("units0", "origin0", "rorder0", "rorder_origin0")


def central(S, c):
    """positions and velocities relative to the cluster (its centre, if given relative to the galaxy)"""
    o = S.snap(c)
    if c.origin == "galaxy":
        o.x, o.y, o.z = c.x - c.xgc - c.xc, c.y - c.ygc - c.yc, c.z - c.zgc - c.zc
        o.vx, o.vy, o.vz = c.vx - c.vxgc - c.vxc, c.vy - c.vygc - c.vyc, c.vz - c.vzgc - c.vzc
    o.r = S.sqrt(o.x ** 2 + o.y ** 2 + o.z ** 2)
    o.rpro = S.sqrt(o.x ** 2 + o.y ** 2)
    o.v = S.sqrt(o.vx ** 2 + o.vy ** 2 + o.vz ** 2)
    o.vpro = S.sqrt(o.vx ** 2 + o.vy ** 2)
    return o


@contract("L01", [FN + "rlagrange", CL + "rlagrange"], cases=product(origin=ORIGINS, projected=[False, True]), trials=10)
def lagrange_radii(S, origin, projected):
    c = S.cluster(origin=origin)
    nl = S.int("nl", lo=1, hi=40)
    S.call(c.analyze)
    o = central(S, c)
    old = S.snap(c)
    rn = S.call(c.rlagrange, nlagrange=nl, projected=projected)
    S.eq("one radius per mass bin", S.len(rn), nl)
    r = o.rpro if projected else o.r
    order = S.np.argsort(r)
    for i in S.each(nl - 1):
        S.eq("radius enclosing the fraction (i+1)/n of the mass", rn[i], mass_radius(S, o.m, order, r, (i + 1) / nl, S.sum(o.m)))
    S.eq("the last radius is that of the outermost star", rn[nl - 1], S.np.amax(r))
    S.eq("stored", S.np.array(c.rn), S.np.array(rn))
    frame(S, c, old, ("rn",) + SAVED)


@contract("L01", [FN + "rlagrange", CL + "rlagrange"], cases=product(origin=ORIGINS, projected=[False, True]), trials=10)
def mass_fraction_radius(S, origin, projected):
    c = S.cluster(origin=origin)
    f = S.real("mfrac", lo=0, hi=1)
    S.require(f > 0)
    S.require(f < 1)
    S.call(c.analyze)
    o = central(S, c)
    old = S.snap(c)
    rn = S.call(FN + "rlagrange", c, mfrac=f, projected=projected)
    r = o.rpro if projected else o.r
    S.eq("radius enclosing the mass fraction", rn, mass_radius(S, o.m, S.np.argsort(r), r, f, S.sum(o.m)))
    frame(S, c, old, ("rn",) + SAVED)


def half_mass(S, o, projected):
    r = o.rpro if projected else o.r
    return mass_radius(S, o.m, S.np.argsort(r), r, S.q("0.5"), S.sum(o.m))


SEC = "3.086e13"


def pc_kms_in_myr(S):
    """Myr per pc/(km/s), with the year the code uses"""
    return S.q(SEC) / (S.q("3600") * 24 * 365 * 1000000)


@contract("R01", [FN + "half_mass_relaxation_time", CL + "half_mass_relaxation_time"],
          cases=product(units=UNITS, origin=["cluster"], projected=[False, True]) + product(units=["pckms"], origin=["centre", "galaxy"], projected=[False, True]), trials=6)
def half_mass_time(S, units, origin, projected):
    """Spitzer (1987) half-mass relaxation time, in the cluster's own time unit"""
    c = S.cluster(units=units, origin=origin)
    cl = S.real("coulomb", pos=True)
    S.require(cl * c.ntot > 1)
    S.call(c.analyze)
    o = central(S, c)
    old = S.snap(c)
    L, V, M, T = factors(S, c, units)
    t = S.call(c.half_mass_relaxation_time, coulomb=cl, projected=projected)
    mass = S.sum(o.m) * M
    rh = half_mass(S, o, projected) * L
    want = S.q("0.138") * S.sqrt(mass) * rh * S.sqrt(rh) / (mass / o.ntot * S.sqrt(S.q("0.004302")) * S.np.log(cl * o.ntot))
    S.eq("relaxation time", t * T, want * pc_kms_in_myr(S))
    S.eq("stored", c.trh, t)
    frame(S, c, old, ("trh",) + SAVED)


@contract("R01", [FN + "relaxation_time", CL + "relaxation_time"],
          cases=product(units=UNITS, origin=["cluster"], projected=[False, True], rad=[False]) +
          product(units=["pckms"], origin=["centre", "galaxy"], projected=[False, True], rad=[False]) +
          product(units=["pckms", "kpckms", "nbody"], origin=["cluster"], projected=[False, True], rad=[True]), trials=6)
def local_time(S, units, origin, projected, rad):
    """Spitzer & Hart (1971) relaxation time within a radius (the half-mass radius if none is given)"""
    c = S.cluster(units=units, origin=origin)
    cl = S.real("coulomb", pos=True)
    S.require(cl * c.ntot > 1)
    S.call(c.analyze)
    o = central(S, c)
    L, V, M, T = factors(S, c, units)
    r = o.rpro if projected else o.r
    v = o.vpro if projected else o.v
    if rad:
        R = S.real("rad", pos=True)
        S.require(S.np.sum(r <= R) >= 1)
    else:
        R = half_mass(S, o, projected)
        S.require(R > 0)
    old = S.snap(c)
    t = S.call(c.relaxation_time, rad=R if rad else None, coulomb=cl, projected=projected)
    inside = r <= R
    N = S.np.sum(inside)
    mbar = S.sum(o.m[inside]) / N * M
    rho = N / (4 * S.pi * (R * L) ** 3 / 3)
    v2 = S.sum(v ** 2) / o.ntot * V ** 2
    want = v2 * S.sqrt(v2) / (S.q("15.4") * S.q("0.004302") ** 2 * mbar ** 2 * rho * S.np.log(cl * o.ntot))
    S.eq("relaxation time", t * T, want * pc_kms_in_myr(S))
    S.eq("stored", c.trelax, t)
    frame(S, c, old, ("trelax",) + SAVED)


def local_density(S, o, k, projected):
    """mass density of the stars nearer than the k-th neighbour, around every star"""
    d, a = S.knn([o.x, o.y] if projected else [o.x, o.y, o.z], k)
    mass = 0
    for j in range(k - 1):
        mass = mass + o.m[a[j]]
    return mass / d[-1] ** (2 if projected else 3)


def core_radius(S, o, k, projected):
    rho = local_density(S, o, k, projected)
    r = o.rpro if projected else o.r
    return S.sqrt(S.sum(rho ** 2 * r ** 2) / S.sum(rho ** 2))


def unambiguous(S, o, k, projected):
    """sampled inputs: which stars are the k nearest must not hinge on ties that rounding breaks"""
    if not S.symbolic:
        d, a = S.knn([o.x, o.y] if projected else [o.x, o.y, o.z], k + 1)
        for j in range(1, k):
            S.require(S.np.all(d[j + 1] > d[j] * (1 + 1e-9)))


CENTRE0 = ("xc", "yc", "zc", "vxc", "vyc", "vzc")


@contract("R01", [FN + "rcore", CL + "rcore"], cases=product(origin=["centre", "galaxy"], projected=[False, True], k=[6, 3]) + product(origin=["cluster"], projected=[False], k=[6]), trials=8)
def core_radius_density(S, origin, projected, k):
    """the core radius is the density-weighted root-mean-square distance from the centre"""
    c = S.cluster(origin=origin, n=S.int("n", lo=8))
    S.require(c.xc != 0)
    S.call(c.analyze)
    o = S.snap(c)
    if origin != "centre":
        d = [c.xc, c.yc, c.zc] if origin == "cluster" else [c.xgc + c.xc, c.ygc + c.yc, c.zgc + c.zc]
        o.x, o.y, o.z = c.x - d[0], c.y - d[1], c.z - d[2]
    o.r = S.sqrt(o.x ** 2 + o.y ** 2 + o.z ** 2)
    o.rpro = S.sqrt(o.x ** 2 + o.y ** 2)
    S.require_pairs("x", c.ntot, lambda i, j: (o.x[i] - o.x[j]) ** 2 + (o.y[i] - o.y[j]) ** 2 > 0)
    unambiguous(S, o, k, projected)
    old = S.snap(c)
    rc = S.call(c.rcore, nneighbour=k, projected=projected)
    S.eq("core radius", rc, core_radius(S, o, k, projected))
    S.eq("stored", c.rc, rc)
    frame(S, c, old, ("rc",) + SAVED)


@contract("R01", [FN + "core_relaxation_time", CL + "core_relaxation_time"],
          cases=product(units=UNITS, origin=["centre"], projected=[False, True]) + product(units=["pckms"], origin=["galaxy"], projected=[False, True]), trials=6)
def core_time(S, units, origin, projected):
    """Stone & Ostriker (2015) core relaxation time, in the cluster's own time unit"""
    c = S.cluster(units=units, origin=origin, n=S.int("n", lo=8))
    S.require(c.xc != 0)
    cl = S.real("coulomb", pos=True)
    S.require(cl * c.ntot > 1)
    S.call(c.analyze)
    o = central(S, c)
    S.require_pairs("x", c.ntot, lambda i, j: (o.x[i] - o.x[j]) ** 2 + (o.y[i] - o.y[j]) ** 2 > 0)
    unambiguous(S, o, 6, projected)
    old = S.snap(c)
    L, V, M, T = factors(S, c, units)
    t = S.call(c.core_relaxation_time, coulomb=cl, projected=projected)
    mtot = S.sum(o.m) * M
    rc, rh = core_radius(S, o, 6, projected) * L, half_mass(S, o, projected) * L
    want = S.q("0.39") / S.np.log(cl * o.ntot) * S.sqrt(rc ** 3 / (S.q("0.004302") * mtot)) * o.ntot * S.sqrt(rc * rh) / (rc + rh)
    S.eq("relaxation time", t * T, want * pc_kms_in_myr(S))
    S.eq("stored", c.trc, t)
    frame(S, c, old, ("trc", "rc") + SAVED)
