"""Table of properties; writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = "clustertools/cluster/operations.py"
CLU = "clustertools/cluster/cluster.py"
UNI = "clustertools/util/units.py"
COO = "clustertools/util/coordinates.py"
FUN = "clustertools/analysis/functions.py"
PRO = "clustertools/analysis/profiles.py"
REC = "clustertools/util/recipes.py"
ORB = "clustertools/analysis/orbits.py"
TAI = "clustertools/tidaltail/tails.py"
OUT = "clustertools/util/output.py"
LOA = "clustertools/io/load.py"
SNA = "clustertools/io/snapshot.py"

P = []


def prop(id, title, statement, over, qtext, tests, files, mech, claimed=True, reason=None, note=None, level="proof", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech, claimed=claimed,
                  reason=reason, note=note, level=level, state=state))


prop("U01", "Unit-system conversions scale every quantity by its exact dimension",
     "Converting a cluster from any unit system to any other (pc/km/s, kpc/km/s, pc/Myr, kpc/Gyr, N-body, galpy, Wright-Dunham) multiplies every length, velocity, "
     "mass and time it carries by exactly the ratio of the two systems' units for that dimension, star by star, for the stars, the centre and the orbit alike. "
     "Nothing else about the cluster changes, the unit label names the new system, and converting to the system it is already in is the identity; a conversion there and back restores every value.",
     ["inputs", "histories"], "every cluster (any number of stars, any positions, scales and solar constants), every ordered pair of unit systems, with and without resorting",
     "the suite converts a few fixed clusters along a few paths; 7x7 pairs times all quantities, for all values, need a proof",
     [OPS, CLU], [("to_pckms/to_kpckms/to_pcmyr/to_kpcgyr/to_nbody/to_galpy/to_WDunits", OPS), ("to_units dispatch", OPS)])
prop("U02", "User-supplied values are converted with the cluster's own unit factors",
     "A length, velocity, squared velocity, time, mass or (projected) mass density that a user gives in one unit system for a cluster held in another is converted by exactly the factor "
     "that converting the cluster itself would apply to a quantity of that dimension, for scalars and arrays. Expressing a value in another system and back returns it.",
     ["inputs"], "every value or array, every ordered pair of the seven unit systems, every N-body scale and solar constant",
     "two independent tables of factors must agree for all pairs and dimensions; tests sample a handful of entries",
     [UNI], [("_convert_length/_convert_velocity/_convert_square_velocity/_convert_time/_convert_mass/_convert_density", UNI)])
prop("F01", "Changing the origin is an exact translation",
     "Moving a cluster between the cluster, centre and galaxy origins shifts every star's position and velocity by exactly the difference of the two origins (as stored in the cluster), "
     "and changes nothing else but the origin label and derived quantities. Every route between two origins gives the same coordinates, and a move there and back restores them.",
     ["inputs", "histories"], "every cluster, every ordered pair of origins, via the direct operation or the dispatcher, sorted or not",
     "requires all star values and all pairs of origins, not the sampled ones", [OPS, CLU],
     [("to_cluster/to_centre/to_galaxy/to_origin", OPS)])
prop("F02", "Spherical and cylindrical coordinates are exact, norm preserving and invertible",
     "For every star off the polar axis the spherical and cylindrical coordinates reproduce the cartesian position, the velocity components are the projections on the local unit vectors and keep the speed. "
     "Transforming back returns the original cartesian values, for single values and arrays alike. Asking for a cluster's star coordinates returns independent copies in its current frame and leaves the cluster as it was.",
     ["inputs"], "all cartesian phase-space coordinates with a defined azimuth (and positions on the axis for distance, height and speed)",
     "identities over the reals in six variables; tests check particular points", [COO],
     [("cart_to_sphere/sphere_to_cart/cart_to_cyl/cyl_to_cart", COO), ("sphere_coords/cyl_coords", COO)])
prop("A02", "Derived cluster state always refers to the current coordinates",
     "After the standard analysis of a cluster, and after any change of origin or units of an analysed cluster, the stored distances, speeds, total and mean mass, mean and maximum radii are those of the current coordinates; "
     "the stored star orders are permutations sorting the current (projected) distances. The 50% and 10% mass (and light) radii are the radius of the innermost star at which the enclosed mass (light) reaches that fraction.",
     ["inputs", "histories"], "every cluster, every pair of origins, projected or not, with or without luminosities",
     "depends on the order of operations and on ties and on every star's value", [CLU, OPS],
     [("StarCluster.analyze", CLU), ("StarCluster.sortstars", CLU)])

exec(open(os.path.join(HERE, "tools", "props_more.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if not p["claimed"]:
            na.append(dict(property=p["id"], reason=p["reason"]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           technique="contract-based deductive verification: path-wise symbolic execution of the mechanically transformed source, obligations discharged by normal form, z3 and cvc5",
                           level=p["level"],
                           level_note=p["note"] or "Proof over the reals for all inputs within the stated preconditions; numpy/galpy functions by assumed contracts (cross-checked on CPython each run); floating-point rounding not modelled."))
    m = dict(version=1, setup_cmd="python3-vt -c \"import z3; print(z3.get_version_string())\"", checks=checks, not_applicable=na,
             notes="No hooks in /repo. Every check re-reads and re-transforms /repo's current source; see DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
