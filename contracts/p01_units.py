"""U01: cluster unit conversions."""
from vt.api import contract, product
from contracts.common import *

OPS = "clustertools.cluster.operations."
CL = "clustertools.cluster.cluster.StarCluster."
ANALYZE = CL + "analyze"


def check_scaled(S, c, old, u, t):
    L, V, M, T = factors(S, old, u)
    L2, V2, M2, T2 = factors(S, old, t)
    for f in LEN_FIELDS:
        S.eq("%s scales as a length" % f, getattr(c, f), getattr(old, f) * (L / L2))
    for f in VEL_FIELDS:
        S.eq("%s scales as a velocity" % f, getattr(c, f), getattr(old, f) * (V / V2))
    S.eq("m scales as a mass", c.m, old.m * (M / M2))
    S.eq("tphys scales as a time", c.tphys, old.tphys * (T / T2))
    S.eq("unit label", c.units, t)
    S.eq("origin label kept", c.origin, old.origin)


@contract("U01", [CL + "to_" + t for t in UNITS] + [OPS + "to_" + t for t in UNITS],
          cases=product(u=UNITS, t=UNITS, origin=["cluster", "centre", "galaxy"]), uses=[ANALYZE], trials=3)
def to_system(S, u, t, origin):
    c = S.cluster(units=u, origin=origin, bunits=None)
    old = S.snap(c)
    S.call(getattr(c, "to_" + t))
    check_scaled(S, c, old, u, t)
    frame(S, c, old, LEN_FIELDS + VEL_FIELDS + ("m", "tphys", "units") + tuple(DERIVED))



@contract("U01", [OPS + "to_units", CL + "to_units"] + [OPS + "to_" + t for t in UNITS], cases=product(u=UNITS, t=UNITS), uses=[ANALYZE], trials=3)
def units_dispatch(S, u, t):
    """to_units names a system; there and back is the identity"""
    c = S.cluster(units=u)
    old = S.snap(c)
    S.call(c.to_units, t)
    check_scaled(S, c, old, u, t)
    S.call(c.to_units, u)
    for f in LEN_FIELDS + VEL_FIELDS + ("m", "tphys", "units", "origin"):
        S.eq("%s restored" % f, getattr(c, f), getattr(old, f))
