"""F02: coordinate transformations are exact, norm preserving and invertible."""
from vt.api import contract, product
from contracts.common import *

CO = "clustertools.util.coordinates."
CL = "clustertools.cluster.cluster.StarCluster."
ANALYZE = CL + "analyze"


def vec(S, form, axis=False):
    """six cartesian components; off the polar axis unless axis is set"""
    if form == "array":
        n = S.int("n", lo=1)
        v = [S.arr(f, n) for f in POS + VEL]
        if axis:
            v[0], v[1] = v[0] * 0, v[1] * 0
            S.require_each(v[2] != 0)
        else:
            S.require_each(v[0] * v[0] + v[1] * v[1] > 0)
    else:
        v = [S.real(f) for f in POS + VEL]
        if axis:
            v[0], v[1] = v[0] * 0, v[1] * 0
            S.require(v[2] != 0)
        else:
            S.require(v[0] * v[0] + v[1] * v[1] > 0)
    return v


def check_sphere(S, v, got):
    x, y, z, vx, vy, vz = v
    r, phi, theta, vr, vphi, vtheta = got
    R = S.sqrt(x * x + y * y)
    rr = S.sqrt(x * x + y * y + z * z)
    S.eq("r is the distance", r, rr)
    sp, cp, st, ct = S.np.sin(phi), S.np.cos(phi), S.np.sin(theta), S.np.cos(theta)
    S.eq("x recovered from the angles", r * st * cp, x)
    S.eq("y recovered from the angles", r * st * sp, y)
    S.eq("z recovered from the angles", r * ct, z)
    S.ensure("polar angle is between 0 and pi", (theta >= 0) & (theta <= S.pi))
    S.ensure("azimuth is between -pi and pi", (phi >= -S.pi) & (phi <= S.pi))
    S.eq("radial velocity is the projection on the position", vr * rr, x * vx + y * vy + z * vz)
    S.eq("azimuthal velocity", vphi * R, x * vy - y * vx)
    S.eq("polar velocity", vtheta * (rr * R), (x * vx + y * vy) * z - vz * R * R)
    S.eq("speed preserved", vr * vr + vphi * vphi + vtheta * vtheta, vx * vx + vy * vy + vz * vz)


def check_cyl(S, v, got):
    x, y, z, vx, vy, vz = v
    R_, phi, zed, vR, vT, vzed = got
    R = S.sqrt(x * x + y * y)
    S.eq("R is the cylindrical distance", R_, R)
    S.eq("x recovered from the angle", R_ * S.np.cos(phi), x)
    S.eq("y recovered from the angle", R_ * S.np.sin(phi), y)
    S.eq("z kept", zed, z)
    S.eq("radial velocity", vR * R, x * vx + y * vy)
    S.eq("tangential velocity", vT * R, x * vy - y * vx)
    S.eq("vz kept", vzed, vz)
    S.eq("speed preserved", vR * vR + vT * vT + vzed * vzed, vx * vx + vy * vy + vz * vz)


@contract("F02", [CO + "cart_to_sphere"], cases=product(form=["array", "number"]), trials=20)
def to_sphere(S, form):
    v = vec(S, form)
    check_sphere(S, v, S.call(CO + "cart_to_sphere", *v))


@contract("F02", [CO + "cart_to_sphere"], cases=product(form=["array", "number"]), trials=20)
def to_sphere_axis(S, form):
    """stars on the polar axis"""
    v = vec(S, form, axis=True)
    x, y, z, vx, vy, vz = v
    r, phi, theta, vr, vphi, vtheta = S.call(CO + "cart_to_sphere", *v)
    S.eq("r is the distance", r * r, z * z)
    S.eq("z recovered", r * S.np.cos(theta), z)
    S.eq("radial velocity", vr * r, z * vz)
    S.eq("speed preserved", vr * vr + vphi * vphi + vtheta * vtheta, vx * vx + vy * vy + vz * vz)


@contract("F02", [CO + "cart_to_cyl"], cases=product(form=["array", "number"]), trials=20)
def to_cyl(S, form):
    v = vec(S, form)
    check_cyl(S, v, S.call(CO + "cart_to_cyl", *v))


def angles(S, form):
    if form == "array":
        n = S.int("n", lo=1)
        A = lambda f, **k: S.arr(f, n, **k)
    else:
        A = lambda f, **k: S.real(f, **k)
    return A


@contract("F02", [CO + "sphere_to_cart"], cases=product(form=["array", "number"]), trials=20)
def from_sphere(S, form):
    A = angles(S, form)
    r, phi, theta = A("r", pos=True), A("phi", lo=-3, hi=3), A("theta", lo=0, hi=3)
    vr, vphi, vtheta = A("vr"), A("vphi"), A("vtheta")
    x, y, z, vx, vy, vz = S.call(CO + "sphere_to_cart", r, phi, theta, vr, vphi, vtheta)
    sp, cp, st, ct = S.np.sin(phi), S.np.cos(phi), S.np.sin(theta), S.np.cos(theta)
    S.eq("x", x, r * st * cp)
    S.eq("y", y, r * st * sp)
    S.eq("z", z, r * ct)
    S.eq("vx", vx, vr * st * cp + vtheta * ct * cp - vphi * sp)
    S.eq("vy", vy, vr * st * sp + vtheta * ct * sp + vphi * cp)
    S.eq("vz", vz, vr * ct - vtheta * st)
    S.eq("distance preserved", x * x + y * y + z * z, r * r)
    S.eq("speed preserved", vx * vx + vy * vy + vz * vz, vr * vr + vphi * vphi + vtheta * vtheta)


@contract("F02", [CO + "cyl_to_cart"], cases=product(form=["array", "number"]), trials=20)
def from_cyl(S, form):
    A = angles(S, form)
    R, phi, z = A("R", pos=True), A("phi", lo=-3, hi=3), A("z")
    vR, vT, vz_ = A("vR"), A("vT"), A("vz")
    x, y, zz, vx, vy, vz = S.call(CO + "cyl_to_cart", R, phi, z, vR, vT, vz_)
    sp, cp = S.np.sin(phi), S.np.cos(phi)
    S.eq("x", x, R * cp)
    S.eq("y", y, R * sp)
    S.eq("z", zz, z)
    S.eq("vx", vx, vR * cp - vT * sp)
    S.eq("vy", vy, vR * sp + vT * cp)
    S.eq("vz", vz, vz_)
    S.eq("speed preserved", vx * vx + vy * vy + vz * vz, vR * vR + vT * vT + vz_ * vz_)


@contract("F02", [CO + "cart_to_sphere", CO + "sphere_to_cart", CO + "cart_to_cyl", CO + "cyl_to_cart"],
          cases=product(kind=["sphere", "cyl"], form=["array", "number"]), trials=20)
def there_and_back(S, kind, form):
    v = vec(S, form)
    w = S.call(CO + "cart_to_" + kind, *v)
    u = S.call(CO + kind + "_to_cart", *w)
    for f, a, b in zip(POS + VEL, u, v):
        S.eq("%s restored" % f, a, b)


@contract("F02", [CO + "sphere_coords", CO + "cyl_coords"], cases=product(kind=["sphere", "cyl"], origin=ORIGINS, sorted=[True, False]),
          uses=[ANALYZE], trials=6)
def cluster_coords(S, kind, origin, sorted):
    """the star arrays of a cluster, in its own frame; the cluster itself is left alone"""
    c = S.cluster(origin=origin, units="kpckms")
    if sorted:
        S.order(c)
        c.rorder_origin = origin
    S.require_each(c.x * c.x + c.y * c.y > 0)
    old = S.snap(c)
    got = S.call(CO + kind + "_coords", c)
    v = [getattr(old, f) for f in POS + VEL]
    (check_sphere if kind == "sphere" else check_cyl)(S, v, got)
    frame(S, c, old, tuple(DERIVED) + ("units0", "origin0", "rorder0", "rorder_origin0"))


@contract("F02", [CO + "sphere_coords", CO + "cyl_coords"], cases=product(kind=["sphere", "cyl"], origin=ORIGINS), uses=[ANALYZE], trials=3)
def coords_are_copies(S, kind, origin):
    """changing the returned values does not change the cluster"""
    c = S.cluster(origin=origin, units="kpckms")
    S.require_each(c.x * c.x + c.y * c.y > 0)
    old = S.snap(c)
    for a in S.call(CO + kind + "_coords", c):
        a *= 2
        a += 1
    frame(S, c, old, tuple(DERIVED) + ("units0", "origin0", "rorder0", "rorder_origin0"))
