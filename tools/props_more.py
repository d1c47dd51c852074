prop("S01", "A star selection contains exactly the stars that meet every limit",
     "Selecting stars by limits on (projected) distance, mass, (projected) speed, energy, stellar type, population and a user mask selects exactly the stars that meet all of them, limits inclusive, "
     "one entry per star in the cluster's order; limits not given do not restrict. Selecting again with the same limits changes nothing, a further limit never adds stars, and neither the cluster nor the user's own mask is modified. "
     "The overlap of two clusters is exactly the stars with a star of the other cluster closer than the tolerance.",
     ["inputs", "histories"], "every cluster, every combination of limits, every mask, projected or not",
     "the answer depends on every star's value against every limit and on repeated use of the same mask", [CLU],
     [("_get_subset/StarCluster.subset", CLU), ("overlap_cluster", CLU)])
prop("S02", "A subcluster carries every attribute of its own stars and leaves the parent alone",
     "A subcluster holds, for every per-star attribute (position, velocity, mass, initial mass, id, population, type, sky coordinates, stellar evolution, energies), exactly the values of the selected stars in their original order; "
     "binary-evolution rows are kept exactly when a member is kept. Units, origin, centre, orbit, N-body scales and solar constants are those of the parent, and the parent keeps its stars, frame, units and orders.",
     ["inputs", "histories"], "every cluster and selection, in every origin, with or without stellar-evolution, binary, sky and energy data",
     "attribute alignment must hold for every mask and every combination of optional data", [CLU],
     [("sub_cluster", CLU), ("StarCluster.add_stars/add_sse/add_bse/add_nbody6/add_energies/add_orbit", CLU)])
prop("E01", "Pairwise quantities account for every pair of stars exactly once",
     "The potential energy of a star is the gravitational sum over all other stars, each exactly once and itself never, for every way of computing it (full, loop, multi-threaded, chosen stars only), softened or not, projected or not, specific or not; "
     "kinetic energy is half the squared speed relative to the cluster; totals count every pair once, and the virial ratio follows. Energies do not depend on the origin the stars are given in and scale with the velocity unit. "
     "The virial radius is the mass-weighted inverse-distance sum over pairs, and the nearest neighbour of a star is another star with no star closer. Only the energy attributes change.",
     ["inputs", "schedules"], "every cluster of distinct star positions, every number of stars, every selection, every thread schedule of the parallel loops",
     "double counting, self terms and thread races depend on the number of stars and the schedule; tests compare two small clusters on one schedule", ["clustertools/analysis/functions.py"],
     [("energies and the potential-energy kernels", "clustertools/analysis/functions.py"), ("virial_radius/closest_star", "clustertools/analysis/functions.py")])

FUN = "clustertools/analysis/functions.py"
prop("L01", "Lagrange radii enclose exactly their share of the mass",
     "The k-th of n (projected) Lagrange radii is the distance of the first star, going outwards from the centre, at which the mass inside reaches k/n of the cluster mass: the mass within the radius is at least that fraction and the mass strictly inside is less. "
     "The last radius is that of the outermost star, a radius for an exact mass fraction is found the same way, radii refer to the cluster frame whatever the origin, and the cluster is returned unchanged.",
     ["inputs"], "every cluster, number of radii and mass fraction, every origin, projected or not",
     "which star carries the boundary depends on every mass and distance; tests use equal-mass or one fixed cluster", [FUN],
     [("rlagrange", FUN)])
prop("R01", "Relaxation times and the core radius follow their definitions in every unit system",
     "The half-mass (Spitzer 1987), local (Spitzer & Hart 1971, within the half-mass or a given radius) and core (Stone & Ostriker 2015) relaxation times evaluate the published formulae on the cluster's own masses, radii and velocities relative to the cluster, "
     "with the given Coulomb parameter, projected or not; their values describe the same physical time in every unit system. The core radius is the density-weighted root-mean-square distance from the centre. Everything else about the cluster is left as it was.",
     ["inputs"], "every cluster, unit system, Coulomb parameter, radius and origin",
     "the result mixes unit conversion, order statistics and sums over all stars; tests check one cluster in a few unit systems", [FUN],
     [("relaxation_time/half_mass_relaxation_time/core_relaxation_time", FUN), ("rcore", FUN)])
