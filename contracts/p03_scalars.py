"""U02: converters of user-supplied values agree with the cluster's own unit system."""
from vt.api import contract, product
from contracts.common import *

U = "clustertools.util.units."


def unit_of(S, c, u, kind):
    L, V, M, T = factors(S, c, u)
    return dict(length=L, velocity=V, square_velocity=V * V, time=T, mass=M)[kind]


@contract("U02", [U + "_convert_length", U + "_convert_velocity", U + "_convert_square_velocity", U + "_convert_time", U + "_convert_mass"],
          cases=product(kind=["length", "velocity", "square_velocity", "time", "mass"], u=UNITS, t=UNITS), trials=2)
def convert_value(S, kind, u, t):
    c = S.cluster(units=t)
    old = S.snap(c)
    x = S.real("x")
    f = unit_of(S, c, u, kind) / unit_of(S, c, t, kind)
    got = S.call(U + "_convert_" + kind, x, u, c)
    S.eq("%s converted by the ratio of the units" % kind, got, x * f)
    n = S.int("k", lo=0)
    a = S.arr("a", n)
    b = S.call(U + "_convert_" + kind, a + 0, u, c)
    S.eq("array of %s converted by the ratio of the units" % kind, b, a * f)
    frame(S, c, old, ())


@contract("U02", [U + "_convert_density", U + "_convert_mass"], cases=product(u=UNITS, t=UNITS, projected=[False, True]), trials=2)
def convert_density(S, u, t, projected):
    c = S.cluster(units=t)
    old = S.snap(c)
    x = S.real("x")
    p = 2 if projected else 3
    f = (unit_of(S, c, u, "mass") / unit_of(S, c, t, "mass")) / (unit_of(S, c, u, "length") / unit_of(S, c, t, "length")) ** p
    got = S.call(U + "_convert_density", x, u, c, projected=projected)
    S.eq("density converted by mass over length to the power of the dimension", got, x * f)
    frame(S, c, old, ())


@contract("U02", [U + "_convert_length", U + "_convert_velocity", U + "_convert_time", U + "_convert_mass"],
          cases=product(kind=["length", "velocity", "square_velocity", "time", "mass"], u=UNITS, t=UNITS), trials=1)
def convert_roundtrip(S, kind, u, t):
    """lemma: expressing a value in another system and back is the identity"""
    c = S.cluster(units=t)
    x = S.real("x")
    y = S.call(U + "_convert_" + kind, x, u, c)
    c.units = u
    S.eq("round trip", S.call(U + "_convert_" + kind, y, t, c), x)
