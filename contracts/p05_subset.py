"""S01: star selections; S02: subclusters."""
from vt.api import contract, product
from contracts.common import *

CL = "clustertools.cluster.cluster.StarCluster."
MOD = "clustertools.cluster.cluster."
SUB = MOD + "_get_subset"
ANALYZE = CL + "analyze"
LIMITS = ["rmin", "rmax", "mmin", "mmax", "vmin", "vmax", "emin", "emax", "kwmin", "kwmax", "npop"]


def pick(S, names):
    kw = {}
    for k in names:
        if k in ("kwmin", "kwmax", "npop"):
            kw[k] = S.int(k, lo=0, hi=15) if k != "npop" else S.int(k, lo=0, hi=12)
        else:
            kw[k] = S.real(k)
    return kw


def selection(S, c, kw, mask, projected):
    """the selection as documented: every given limit holds (inclusive)"""
    r, v = (c.rpro, c.vpro) if projected else (c.r, c.v)
    val = dict(r=r, m=c.m, v=v, e=c.etot, kw=c.kw)
    sel = S.np.ones(S.len(c.m), dtype=bool) if mask is None else mask
    k = dict(kwmin=0, kwmax=15)
    k.update(kw)
    for q, a in val.items():
        if S.len(a) == 0 if isinstance(S.len(a), int) else False:
            continue
        if k.get(q + "min") is not None:
            sel = S.np.logical_and(sel, a >= k[q + "min"])
        if k.get(q + "max") is not None:
            sel = S.np.logical_and(sel, a <= k[q + "max"])
    if k.get("npop") is not None:
        sel = S.np.logical_and(sel, c.npop == k["npop"])
    return sel


CASES = [()] + [(k,) for k in LIMITS] + [("rmin", "rmax", "kwmin", "kwmax"), ("mmin", "mmax", "vmin", "vmax"), ("emin", "emax", "npop"), tuple(LIMITS)]


def setup(S, how, projected, **kw):
    c = S.cluster(**kw)
    n = S.len(c.m)
    c.etot = S.arr("etot", n)
    mask = None if how in ("default", "none", "list") else S.arr("mask", n, dt="b")
    user = {} if how == "default" else dict(indx=None) if how == "none" else dict(indx=[None]) if how == "list" else dict(indx=mask)
    if how == "mask":
        user["indx"] = S.np.logical_and(mask, True)
    return c, mask, user


@contract("S01", [SUB, CL + "subset"], cases=product(lim=CASES, projected=[False, True], how=["default", "mask"]) +
          [dict(lim=("rmin", "mmax"), projected=False, how=h) for h in ("none", "list")], trials=4)
def subset_mask(S, lim, projected, how):
    c, mask, user = setup(S, how, projected)
    kw = pick(S, lim)
    old = S.snap(c)
    want = selection(S, c, kw, mask, projected)
    got = S.call(c.subset, projected=projected, **dict(kw, **user))
    S.eq("selected stars are exactly those meeting every limit", got, want)
    if how == "mask":
        S.eq("the caller's own selection is left alone", user["indx"], mask)
    frame(S, c, old, ("indx",))


@contract("S01", [SUB, CL + "subset"], cases=product(projected=[False, True]), trials=6)
def subset_untyped(S, projected):
    """clusters without stellar types: every star passes the type limits"""
    c, mask, user = setup(S, "mask", projected)
    c.kw = S.np.array([])
    kw = pick(S, ("rmin", "kwmin", "kwmax"))
    got = S.call(c.subset, projected=projected, **dict(kw, **user))
    S.eq("selected stars are exactly those meeting every limit", got, selection(S, c, dict(rmin=kw["rmin"]), mask, projected))


@contract("S01", [SUB, CL + "subset"], cases=product(lim=[("rmin", "rmax"), ("mmin", "vmax"), ("emin", "npop")]), trials=10)
def subset_narrows(S, lim):
    """lemma: selecting with a selection as mask is the intersection; repeating a selection changes nothing"""
    c, mask, user = setup(S, "default", False)
    kw = pick(S, lim)
    a = S.call(c.subset, **kw)
    b = S.call(c.subset, indx=a, **kw)
    S.eq("selecting again with the same limits changes nothing", b, a)
    d = S.call(c.subset, indx=a, mmax=S.real("m2"))
    S.ensure("a selection never gains stars from another limit", S.np.logical_or(S.np.logical_not(d), a))


# ---------------------------------------------------------------- subclusters
STAR = list(POS + VEL) + ["m", "id", "m0", "npop", "kw"]
SKY = ["ra", "dec", "dist", "pmra", "pmdec", "vlos"]
SSE = ["logl", "logr", "ep", "ospin"]
BSE = ["id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2"]
ENERGY = ["kin", "pot", "etot"]
SCALES = ["rbar", "zmbar", "vbar", "tbar", "rscale", "rtide", "rc", "nc", "n_p"]
CENTRE = ["xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"]
LABELS = ["units", "origin", "ctype", "_ro", "_vo", "_zo", "projected", "centre_method", "tphys"]
KEEP = tuple(DERIVED) + ("units0", "origin0", "rorder0", "rorder_origin0", "indx")


def check_sub(S, sub, old, sel, fields, what=""):
    for f in fields:
        S.eq(what + "%s of the selected stars, in the original order" % f, getattr(sub, f), getattr(old, f)[sel])
    S.eq(what + "number of stars", sub.ntot, S.sum(sel))
    for f in SCALES + CENTRE + LABELS:
        S.eq(what + "%s carried over" % f, getattr(sub, f), getattr(old, f))


@contract("S02", [MOD + "sub_cluster", CL + "add_stars", CL + "add_nbody6", CL + "add_orbit"],
          cases=product(units=["pckms", "nbody", "galpy"], origin=ORIGINS, sort=[True, False]), uses=[ANALYZE], trials=4)
def sub_stars(S, units, origin, sort):
    c = S.cluster(units=units, origin=origin)
    mask = S.arr("mask", S.len(c.m), dt="b")
    S.require(S.sum(mask) > 0)
    S.require_each(S.np.logical_and(c.kw >= 0, c.kw <= 15))
    old = S.snap(c)
    sub = S.call(MOD + "sub_cluster", c, indx=mask, sortstars=sort)
    check_sub(S, sub, old, mask, STAR)
    frame(S, c, old, KEEP)


@contract("S02", [MOD + "sub_cluster", CL + "add_stars", CL + "add_sse", CL + "add_energies"],
          cases=product(have=["sky", "sse", "spin", "energies"], origin=["cluster", "galaxy"]), uses=[ANALYZE], trials=4)
def sub_extras(S, have, origin):
    """sky coordinates, stellar evolution and energies follow their stars"""
    c = S.cluster(origin=origin)
    n = S.len(c.m)
    fields = dict(sky=SKY, sse=["logl", "logr"], spin=SSE, energies=["kin", "pot"])[have]
    for f in fields:
        setattr(c, f, S.arr(f, n))
    if have == "energies":
        c.etot = c.kin + c.pot
        fields = ENERGY
    if have in ("sse", "spin"):
        c.lum = S.np.power(10.0, c.logl)
        c.ltot = S.sum(c.lum)
    mask = S.arr("mask", n, dt="b")
    S.require(S.sum(mask) > 0)
    S.require_each(S.np.logical_and(c.kw >= 0, c.kw <= 15))
    old = S.snap(c)
    sub = S.call(MOD + "sub_cluster", c, indx=mask)
    check_sub(S, sub, old, mask, STAR + fields)
    if have in ("sse", "spin"):
        S.eq("luminosities follow their stars", sub.lum, old.lum[mask])
        S.eq("total luminosity is that of the selected stars", sub.ltot, S.sum(old.lum[mask]))
    frame(S, c, old, KEEP)


@contract("S02", [MOD + "sub_cluster"], cases=product(projected=[False, True], lim=[("rmax",), ("mmin", "mmax"), ("vmax", "npop"), ("kwmax",)], masked=[True, False]), uses=[ANALYZE], trials=4)
def sub_limits(S, projected, lim, masked):
    """limits and a mask together"""
    c, mask, user = setup(S, "mask" if masked else "default", projected)
    c.etot = S.np.array([])
    kw = pick(S, lim)
    sel = selection(S, c, kw, mask, projected)
    S.require(S.sum(sel) > 0)
    old = S.snap(c)
    sub = S.call(MOD + "sub_cluster", c, projected=projected, **dict(kw, **user))
    check_sub(S, sub, old, sel, STAR)
    frame(S, c, old, KEEP)


@contract("S02", [MOD + "sub_cluster"], trials=4)
def sub_empty(S):
    c = S.cluster()
    mask = S.arr("mask", S.len(c.m), dt="b")
    S.require(S.sum(mask) == 0)
    old = S.snap(c)
    sub = S.call(MOD + "sub_cluster", c, indx=mask)
    S.eq("no stars", sub.ntot, 0)
    frame(S, c, old, KEEP)


@contract("S02", [MOD + "sub_cluster", CL + "add_bse"], cases=product(spin=[False, True]), uses=[ANALYZE], trials=6)
def sub_binaries(S, spin):
    """binary-evolution rows follow: kept exactly when one of the two members is kept"""
    c = S.cluster()
    n = S.len(c.m)
    nb = S.int("nb", lo=1)
    fields = BSE + (["ep1", "ep2", "ospin1", "ospin2"] if spin else [])
    for f in fields:
        setattr(c, f, S.arr(f, nb, dt="i" if f in ("id1", "id2") else "f", lo=0 if f in ("id1", "id2") else None))
    mask = S.arr("mask", n, dt="b")
    S.require(S.sum(mask) > 0)
    S.require_each(S.np.logical_and(c.kw >= 0, c.kw <= 15))
    old = S.snap(c)
    sub = S.call(MOD + "sub_cluster", c, indx=mask)
    check_sub(S, sub, old, mask, STAR)
    kept = S.np.logical_or(S.np.isin(old.id1, old.id[mask]), S.np.isin(old.id2, old.id[mask]))
    for f in fields:
        S.eq("%s of the kept binaries, in the original order" % f, getattr(sub, f), getattr(old, f)[kept])
    frame(S, c, old, KEEP)


@contract("S01", [MOD + "overlap_cluster"], cases=product(projected=[False, True]), trials=10)
def overlap_mask(S, projected):
    """stars of one cluster lying within tol of some star of the other"""
    a = S.cluster()
    b = S.cluster(prefix="o_")
    tol = S.real("tol", pos=True)
    olda, oldb = S.snap(a), S.snap(b)
    got = S.call(MOD + "overlap_cluster", a, b, tol=tol, projected=projected, return_cluster=False)
    S.eq("one entry per star", S.len(got), a.ntot)

    def d2(i, j):
        q = (a.x[i] - b.x[j]) ** 2 + (a.y[i] - b.y[j]) ** 2
        return q if projected else q + (a.z[i] - b.z[j]) ** 2
    for i in S.each(a.ntot):
        near = S.sqrt(d2(i, S.np.arange(0, b.ntot)))
        S.eq("a star overlaps exactly when its nearest neighbour in the other cluster is closer than tol", got[i], S.np.amin(near) < tol)
        for j in S.each(b.ntot):
            S.ensure("any star closer than tol makes it overlap", S.or_(S.sqrt(d2(i, j)) >= tol, got[i]))
    frame(S, a, olda, KEEP, "first cluster")
    frame(S, b, oldb, KEEP, "second cluster")


@contract("S02", [MOD + "overlap_cluster"], cases=product(projected=[False, True]), uses=[ANALYZE], trials=10)
def overlap_sub(S, projected):
    a = S.cluster()
    b = S.cluster(prefix="o_")
    S.require_each(S.np.logical_and(a.kw >= 0, a.kw <= 15))
    tol = S.real("tol", pos=True)
    mask = S.call(MOD + "overlap_cluster", a, b, tol=tol, projected=projected, return_cluster=False)
    S.require(S.sum(mask) > 0)
    old = S.snap(a)
    sub = S.call(MOD + "overlap_cluster", a, b, tol=tol, projected=projected)
    check_sub(S, sub, old, mask, STAR)
    frame(S, a, old, KEEP)
