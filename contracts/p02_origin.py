"""F01: moving between cluster/centre/galaxy origins; A02: derived state."""
from vt.api import contract, product
from contracts.common import *

OPS = "clustertools.cluster.operations."
CL = "clustertools.cluster.cluster.StarCluster."
ANALYZE = CL + "analyze"
OUNITS = ["pckms", "kpcgyr", "galpy", "nbody"]


def offset(c, o):
    """position/velocity of the origin o in the galactic frame"""
    gc = (c.xgc, c.ygc, c.zgc, c.vxgc, c.vygc, c.vzgc)
    cc = (c.xc, c.yc, c.zc, c.vxc, c.vyc, c.vzc)
    if o == "cluster":
        return gc
    if o == "centre":
        return tuple(a + b for a, b in zip(gc, cc))
    return (0, 0, 0, 0, 0, 0)


def check_moved(S, c, old, o, t, what=""):
    a, b = offset(old, o), offset(old, t)
    for i, f in enumerate(POS + VEL):
        S.eq("%s%s is translated by the offset of the origins" % (what, f), getattr(c, f), getattr(old, f) + (a[i] - b[i]))
    S.eq(what + "origin label", c.origin, t)
    S.eq(what + "unit label kept", c.units, old.units)


MOVE = dict(o=ORIGINS, t=ORIGINS)


@contract("F01", [OPS + "to_" + t for t in ORIGINS] + [CL + "to_" + t for t in ORIGINS] + [OPS + "to_origin", CL + "to_origin", CL + "to_center", OPS + "to_center"],
          cases=product(o=ORIGINS, t=ORIGINS, via=["method", "to_origin"], sort=[True, False], units=["pckms", "galpy"]), uses=[ANALYZE], trials=2)
def move_origin(S, o, t, via, sort, units):
    c = S.cluster(units=units, origin=o)
    old = S.snap(c)
    if via == "method":
        S.call(getattr(c, "to_" + t), sortstars=sort)
    else:
        S.call(c.to_origin, t, sortstars=sort)
    check_moved(S, c, old, o, t)
    frame(S, c, old, POS + VEL + ("origin",) + tuple(DERIVED))
    if o != t or via == "to_origin":
        S.eq("derived quantities refreshed for the new origin", c.analyze_origin, t)


@contract("F01", [CL + "to_center"], cases=product(o=ORIGINS, name=["to_center", "origin_center"]), uses=[ANALYZE], trials=2)
def move_center_alias(S, o, name):
    c = S.cluster(units="pckms", origin=o)
    old = S.snap(c)
    if name == "to_center":
        S.call(c.to_center)
    else:
        S.call(c.to_origin, "center")
    check_moved(S, c, old, o, "centre")


@contract("F01", [OPS + "to_origin"], cases=product(o=ORIGINS, t=ORIGINS), uses=[ANALYZE], trials=2)
def move_roundtrip(S, o, t):
    """there and back is the identity"""
    c = S.cluster(units="kpckms", origin=o)
    old = S.snap(c)
    S.call(c.to_origin, t)
    S.call(c.to_origin, o)
    for f in POS + VEL:
        S.eq("%s restored" % f, getattr(c, f), getattr(old, f))
    S.eq("origin restored", c.origin, o)


# ---------------------------------------------------------------- derived state
def check_derived(S, c, what=""):
    x, y, z, vx, vy, vz = (getattr(c, f) for f in POS + VEL)
    S.eq(what + "r is the 3-D distance", c.r, S.sqrt(x * x + y * y + z * z))
    S.eq(what + "rpro is the projected distance", c.rpro, S.sqrt(x * x + y * y))
    S.eq(what + "v is the 3-D speed", c.v, S.sqrt(vx * vx + vy * vy + vz * vz))
    S.eq(what + "vpro is the projected speed", c.vpro, S.sqrt(vx * vx + vy * vy))
    S.eq(what + "mtot is the total mass", c.mtot, S.sum(c.m))
    S.eq(what + "mmean is the mean mass", c.mmean, S.sum(c.m) / S.len(c.m))
    S.eq(what + "rmean is the mean distance", c.rmean, S.sum(c.r) / S.len(c.m))
    S.eq(what + "rmeanpro is the mean projected distance", c.rmeanpro, S.sum(c.rpro) / S.len(c.m))
    S.ensure(what + "no star beyond rmax", c.r <= c.rmax)
    S.ensure(what + "no star beyond rmaxpro", c.rpro <= c.rmaxpro)
    S.eq(what + "analysis label: units", c.analyze_units, c.units)
    S.eq(what + "analysis label: origin", c.analyze_origin, c.origin)


@contract(["A02", "U01", "F01"], [CL + "analyze"], cases=product(sort=[False], projected=[True, False]), trials=20)
def analyze_values(S, sort, projected):
    c = S.cluster()
    old = S.snap(c)
    S.call(c.analyze, sortstars=sort, projected=projected)
    check_derived(S, c)
    frame(S, c, old, DERIVED)


@contract(["U01", "F01", "A02"], [CL + "analyze", CL + "sortstars"], cases=product(sort=[True, False], have=[True, False]), trials=6)
def analyze_frame(S, sort, have):
    """analyze() touches nothing but derived quantities (the callee contract used elsewhere)"""
    c = S.cluster()
    if have:
        S.order(c)
        c.rorder_origin = c.origin
    old = S.snap(c)
    S.call(c.analyze, sortstars=sort)
    frame(S, c, old, DERIVED)
    S.eq("analysis label: units", c.analyze_units, old.units)
    S.eq("analysis label: origin", c.analyze_origin, old.origin)


def mass_radius(S, m, order, rad, frac, mtot):
    """radius of the first star, in order, at which the accumulated mass reaches frac*mtot"""
    ms = S.np.cumsum(m[order])
    j = S.witness_index(ms >= mtot * frac)
    return rad[order[j]]


@contract(["A02", "L01"], [], trials=40, name="mass_radius_lemma")
def mass_radius_lemma(S):
    """lemma: the radius picked by mass_radius encloses at least frac of the mass, and less than frac strictly inside it"""
    n = S.int("n", lo=1)
    r = S.arr("r", n, nonneg=True)
    m = S.arr("m", n, pos=True)
    f = S.real("frac", lo=0, hi=1)
    S.require(f > 0)
    S.require(f < 1)
    M = S.sum(m)
    o = S.np.argsort(r)
    ms = S.np.cumsum(m[o])
    j = S.witness_index(ms >= M * f)
    R = r[o[j]]
    g1 = lambda i: m[i] * S.ite(r[i] <= R, 1, 0)
    g2 = lambda i: m[i] * S.ite(r[i] < R, 1, 0)
    mo = lambda k: m[o[k]]
    S.lemma_reindex("reindex <=", o, g1)
    S.lemma_reindex("reindex <", o, g2)
    S.lemma_split("split j", n, j + 1, mo)
    S.lemma_split("split j-1", n, j, mo)
    S.lemma_sum_le("inside", n, lambda k: S.ite(k < j + 1, 1, 0) * mo(k), lambda k: g1(o[k]))
    S.ensure("mass within the radius is at least the fraction", S.sum_of(n, g1) >= M * f * (1 - S.tol))
    if bool(j > 0):
        S.ensure("prefix before j is below the fraction", ms[j - 1] < M * f)
        S.lemma_sum_le("strictly inside", n, lambda k: g2(o[k]), lambda k: S.ite(k < j, 1, 0) * mo(k))
        S.ensure("mass strictly inside is below the fraction", S.sum_of(n, g2) < M * f)
    else:
        S.lemma_sum_le("strictly inside", n, lambda k: g2(o[k]), lambda k: 0 * mo(k))
        S.ensure("mass strictly inside is below the fraction", S.sum_of(n, g2) < M * f)


def check_sorted(S, c, what="", projected=True):
    n = S.len(c.x)
    S.is_sorting(what + "rorder", c.rorder, c.r, n)
    M = S.sum(c.m)
    S.eq(what + "rm is the half-mass radius", c.rm, mass_radius(S, c.m, c.rorder, c.r, S.q("0.5"), M))
    S.eq(what + "r10 is the 10% radius", c.r10, mass_radius(S, c.m, c.rorder, c.r, S.q("0.1"), M))
    S.eq(what + "order label", c.rorder_origin, c.origin)
    if projected:
        S.is_sorting(what + "rproorder", c.rproorder, c.rpro, n)
        S.eq(what + "rmpro is the projected half-mass radius", c.rmpro, mass_radius(S, c.m, c.rproorder, c.rpro, S.q("0.5"), M))
        S.eq(what + "r10pro is the projected 10% radius", c.r10pro, mass_radius(S, c.m, c.rproorder, c.rpro, S.q("0.1"), M))


@contract("A02", [CL + "analyze", CL + "sortstars"], cases=product(origin=ORIGINS, projected=[True, False]), trials=6)
def analyze_sorted(S, origin, projected):
    """first analysis of a cluster that carries no order yet"""
    c = S.cluster(origin=origin)
    S.call(c.analyze, projected=projected)
    check_derived(S, c)
    check_sorted(S, c, projected=projected)


@contract("A02", [CL + "analyze", CL + "sortstars"], cases=product(projected=[True, False]), trials=6)
def analyze_light(S, projected):
    """half-light and 10%-light radii"""
    c = S.cluster()
    c.lum = S.arr("lum", S.len(c.x), pos=True)
    c.ltot = S.sum(c.lum)
    S.call(c.analyze, projected=projected)
    S.eq("rh is the half-light radius", c.rh, mass_radius(S, c.lum, c.rorder, c.r, S.q("0.5"), c.ltot))
    S.eq("rh10 is the 10% light radius", c.rh10, mass_radius(S, c.lum, c.rorder, c.r, S.q("0.1"), c.ltot))
    if projected:
        S.eq("rhpro is the projected half-light radius", c.rhpro, mass_radius(S, c.lum, c.rproorder, c.rpro, S.q("0.5"), c.ltot))
        S.eq("rh10pro is the projected 10% light radius", c.rh10pro, mass_radius(S, c.lum, c.rproorder, c.rpro, S.q("0.1"), c.ltot))


@contract("A02", [CL + "analyze", CL + "sortstars", OPS + "to_origin", OPS + "to_centre", OPS + "to_cluster", OPS + "to_galaxy"],
          cases=product(o=ORIGINS, t=ORIGINS, via=["to_origin", "method"]), trials=6, cost=3)
def moved_state(S, o, t, via):
    """after moving an already sorted cluster to another origin every derived quantity refers to the new origin"""
    c = S.cluster(origin=o)
    S.call(c.analyze)
    if via == "to_origin":
        S.call(c.to_origin, t)
    else:
        S.call(getattr(c, "to_" + t))
    check_derived(S, c)
    check_sorted(S, c)


CONV = [("pckms", "kpckms"), ("kpckms", "pckms"), ("pckms", "nbody"), ("nbody", "kpcgyr"), ("pcmyr", "galpy"), ("galpy", "WDunits"), ("WDunits", "pcmyr")]


@contract("A02", [CL + "analyze", CL + "sortstars"] + [OPS + "to_" + t for t in UNITS],
          cases=[dict(u=a, t=b) for a, b in CONV], trials=6, cost=3)
def converted_state(S, u, t):
    """after converting an already sorted cluster to another unit system every derived quantity is in the new units"""
    c = S.cluster(units=u)
    S.call(c.analyze)
    S.call(c.to_units, t)
    check_derived(S, c)
    check_sorted(S, c)
