"""Shared specification vocabulary (pure functions used by the contracts)."""
from vt.api import abstraction

POS = ("x", "y", "z")
VEL = ("vx", "vy", "vz")
LEN_FIELDS = POS + ("xc", "yc", "zc", "xgc", "ygc", "zgc")
VEL_FIELDS = VEL + ("vxc", "vyc", "vzc", "vxgc", "vygc", "vzgc")
UNITS = ["pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits"]
ORIGINS = ["cluster", "centre", "galaxy"]
KMS = "1.022712165045695"          # pc/Myr per km/s
WD_MASS = "222288.4543021174"

DERIVED = """r v rpro vpro mtot mmean rmean rmax rmeanpro rmaxpro rm r10 rmpro r10pro rh rh10 rhpro rh10pro
rorder rproorder rorder_origin rproorder_origin analyze_units analyze_origin lpro""".split()


def factors(S, c, u):
    """(length in pc, velocity in km/s, mass in Msun, time in Myr) of one unit of system u"""
    k, one, K = S.q(KMS), S.q("1"), S.q("1000")
    if u == "pckms":
        return one, one, one, one
    if u == "kpckms":
        return K, one, one, K
    if u == "pcmyr":
        return one, one / k, one, one
    if u == "kpcgyr":
        return K, one / k, one, K
    if u == "nbody":
        return c.rbar, c.vbar, c.zmbar, c.tbar
    if u == "galpy":
        ro, vo = c._ro, c._vo
        return (K * ro, vo, S.ext("galpy.util.conversion.mass_in_msol")(vo=vo, ro=ro),
                K * S.ext("galpy.util.conversion.time_in_Gyr")(vo=vo, ro=ro))
    if u == "WDunits":
        vo, ro = c._vo, c._ro
        return K, vo / S.ext("galpy.util.conversion.velocity_in_kpcGyr")(vo=vo, ro=ro), S.q(WD_MASS), K
    raise ValueError(u)


def frame(S, c, old, modified, what="frame"):
    """nothing outside `modified` changed"""
    new = c.__dict__
    for k in sorted(set(new) | set(old.__dict__)):
        if k in modified or k.startswith("_vt"):
            continue
        if k not in old.__dict__:
            S.ensure("%s: no new attribute %s" % (what, k), False)
            continue
        if k not in new:
            S.ensure("%s: attribute %s kept" % (what, k), False)
            continue
        a, b = new[k], old.__dict__[k]
        if a is b:
            continue
        if k in ("rorder", "rproorder") and not S.symbolic and a is not None and b is not None and len(a) == len(b) == len(c.x):
            # in floating point a shift of the origin and back may exchange stars at (almost) equal distances
            key = "r" if k == "rorder" else "rpro"
            S.eq("%s: %s unchanged" % (what, k), S.np.sort(a), S.np.sort(b))
            S.eq("%s: %s unchanged (distances)" % (what, k), new[key][a], old.__dict__[key][b], rtol=1e-4)
            continue
        S.eq("%s: %s unchanged" % (what, k), a, b)


@abstraction("clustertools.cluster.cluster.StarCluster.analyze", by=["analyze_frame", "analyze_values"])
def analyze_abs(S, a, k):
    """callee contract of analyze(): only derived quantities change"""
    self = a[0]
    self.r = S.sqrt(self.x ** 2 + self.y ** 2 + self.z ** 2)
    self.rpro = S.sqrt(self.x ** 2 + self.y ** 2)
    self.v = S.sqrt(self.vx ** 2 + self.vy ** 2 + self.vz ** 2)
    self.vpro = S.sqrt(self.vx ** 2 + self.vy ** 2)
    self.mtot = S.sum(self.m)
    for f in ("mmean", "rmean", "rmax", "rmeanpro", "rmaxpro", "rm", "r10", "rmpro", "r10pro"):
        setattr(self, f, S.fresh_real(f))
    self.analyze_units = self.units
    self.analyze_origin = self.origin
