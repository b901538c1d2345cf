"""What each check needs; need[] are observations without which a run counts as inconclusive."""
REG = {
    "C01": dict(rule="distinct (algorithm, outcome, iterations, log2 particles, q, s) seen at an (object, radius)",
                need=["classified", "unclassified: few", "unclassified: wall", "global: axis ratios", "local shell: axis ratios",
                      "local ellipsoid: axis ratios"]),
    "C02": dict(rule="distinct (local/global, leading axis ratios, number classified) seen", need=["classified", "unclassified",
                "local: orthonormal axes", "global: orthonormal axes", "getShapeCatVelLocal: orthonormal axes", "getShapeCatVelGlobal: orthonormal axes",
                "objects of planar velocities", "objects with coincident particles"]),
    "C03": dict(rule="distinct (transformation, algorithm, centre definition, objects, axis ratios) compared",
                need=["%s: local ratios are unchanged" % k for k in ("rotate", "translate", "mass", "length", "permute", "swapaxes", "mirror", "dupmass")]
                + ["%s: velocity %s ratios are unchanged" % (k, w) for k in ("boost", "rotate", "faster", "mass", "mirror", "length") for w in ("local", "global")]),
    "C04": dict(rule="distinct (move, algorithm, centre definition, faces straddled, axis ratios) compared",
                need=["%s: %s" % (k, w) for k in ("shift", "single axis", "to the middle", "no box")
                      for w in ("local shapes are unchanged", "global shapes are unchanged", "binned densities are unchanged", "centres move along")]
                + ["shift: ellipsoidal densities are unchanged", "objects straddling 3 faces"]
                + ["moved simulation: velocity %s ratios are unchanged" % w for w in ("local", "global")]),
    "C06": dict(rule="distinct (centre definition, members, extent, faces straddled) seen",
                need=["mass is the sum over the members", "mode centre of the members", "com centre of the members", "recentred into the box",
                      "object made contiguous"]),
    "C07": dict(rule="distinct (centre definition, shells, log2 members, filled shells, faces straddled) seen",
                need=["shell density is mass over volume", "mass within the outermost radius is conserved", "empty shells", "filled shells",
                      "particles on inner shell edges are counted once"]),
    "C08": dict(rule="distinct (centre definition, radii, shape radii, log2 members, filled shells, axis ratios) seen",
                need=["ellipsoidal shell density", "empty shells", "filled shells", "too few radii are rejected",
                      "known ellipsoidal density is recovered"]),
    "C09": dict(rule="distinct (centre definition, radii, log2 members, peak density) seen", need=["kernel density"]),
    "C05": dict(rule="distinct (operation, objects, selected, algorithm), pairs of consecutive operations, and (operation, objects) over thread counts",
                need=["%s: %s" % (o, w) for o in ("local", "global", "centres", "sph", "ell", "kernel") for w in
                      ("same alone as in company", "follows the order of the selection", "same in a catalogue of its own", "same with any number of threads",
                       "same as on a fresh catalogue")] + ["fit: same as on a fresh catalogue", "plot shapes: same as on a fresh catalogue"]
                + ["velocity %s: %s" % (o, w) for o in ("local", "global") for w in ("same alone as in company", "follows the order of the selection", "same on a fresh catalogue")]
                + ["fit: same alone as in company, whatever the number of workers", "the simulation reads the same afterwards"]),
    "C10": dict(rule="distinct (profile, minimizer, fixed parameters, noise, residual) seen",
                need=["noiseless parameters are recovered", "a fit describes the profile no worse than the generating parameters", "undefined bins are ignored",
                      "empty bins are ignored", "concentration is r200 over r_s", "a profile without any particles is not fitted",
                      "a fit does not depend on other objects", "rho_s scales with the density", "inconsistent selection is rejected", "known findings replayed"]),
    "C11": dict(rule="distinct (input units, output units) compared, and (profile, fixed parameter, output length) for fits",
                need=["local ratios do not depend on units", "densities are in the units asked for", "centres are in the units asked for",
                      "the label names the unit", "rho_s is in the units asked for", "concentrations do not depend on units",
                      "of a snapshot velocities are in the units asked for", "of a snapshot velocity global radii are in the units asked for", "of a snapshot virial radii are in the units asked for"]),
    "C12": dict(rule="distinct (format, files, particle types, header masses, redshift, units) read back",
                need=["%s: %s are read as written" % (f, w) for f in ("hdf5", "binary1", "binary2") for w in ("positions", "velocities", "masses", "IDs")]
                + ["missing block is refused", "missing file: refused", "truncated file: refused", "several types in one read"]),
    "C26": dict(rule="distinct (format, byte order, files, flavour, masses, types present, empty blocks left out) read back",
                need=["blocks are read as written", "integer blocks are read as written", "masses from the header", "velocities without factor on request",
                      "all types at once", "a type without data in the block is refused", "a block that the file does not hold is refused",
                      "subfiles together hold the data", "subfiles together hold the IDs", "a subfile gives the particles its header counts",
                      "block without particles left out of a subfile",
                      "all masses from the header", "damaged: cut", "damaged: size", "damaged: earlier"]),
    "C27": dict(rule="distinct (profile, centre definition, log2 particles, round, q, s, snapshot, periodic) of halos recovered",
                need=["mass is recovered", "mode centre is recovered", "com centre is recovered", "q is recovered", "global s is recovered", "major axis is recovered",
                      "velocity q is recovered", "local velocity q is recovered", "density in ellipsoids is recovered", "density in spheres is recovered",
                      "density from kernels is recovered", "concentration is recovered", "density scale is recovered"]),
    "C28": dict(rule="distinct (fault, operation, where it struck, snapshot) survived",
                need=["stop: failed", "disk: failed", "blocked: failed", "refused: failed", "faults that struck", "requests that failed", "processes killed while dumping",
                      "after a failure: same as on a fresh instance", "after a failure: a dump holds the results", "after a crash: a dump holds the results"]),
    "C13": dict(rule="distinct (particle type, least number, groups, objects, several files, radius definition) seen",
                need=["group tables are read in order", "catalogue: the particles of the central subhalos", "objects of a snapshot: radii", "no object qualifies",
                      "objects exactly at the limit", "groups without subhalos", "central subhalo just too small", "unknown radius definition is rejected"]),
    "C14": dict(rule="distinct (algorithm, outcome, iterations, log2 particles, q, s) seen at an (object, radius)",
                need=["velocity local shell: axis ratios", "velocity local ellipsoid: axis ratios", "velocity global: axis ratios", "velocity global: axis direction",
                      "positions of a snapshot: axis ratios", "unclassified: few"]),
    "C16": dict(rule="distinct (kind, typed, limit, hits, size, threads, overlaps, clears) of caches driven through a history",
                need=["statistics: %s cache" % k for k in ("bounded", "none", "zero", "memory")] + ["cleared", "evictions", "hits", "calls from threads",
                "computed twice at the same time", "size observed while in use", "after concurrent use: evicts the least recently used",
                "what was remembered is not computed again", "functions of arrays: remembered", "functions of arrays: never holds more than it may",
                "interleaved questions: objects", "asked again", "a failing call fails again and is not remembered"]),
    "C15": dict(rule="distinct (kind of shapes, catalogue type, objects, radii, unclassified rows, centre definition) dumped and read back",
                need=["dumped: %s results are the same" % k for k in ("local", "global", "vlocal", "vglobal")]
                + ["not dumped: %s results are the same" % k for k in ("local", "global", "vlocal", "vglobal")]
                + ["dumped centres", "unclassified rows dumped", "single object dumped", "single radius dumped", "an incomplete dump is not read",
                   "a dump that cannot be written is reported", "read by another catalogue", "ellipsoidal densities from dumped shapes", "dumping again changes nothing",
                   "another snapshot: flags are the same", "known findings replayed"]),
    "C17": dict(rule="distinct (profile, shells asked for and used, log2 particles, axis ratios) of halos, and ellipsoids and shells drawn from",
                need=["particles per shell are in proportion to its mass", "particle masses add up to the mass of the halo", "directions tested", "coarser shells",
                      "a halo does not depend on the random state or the number of workers", "several workers", "the package finds the shape asked for",
                      "ellipsoid: points are uniform in volume", "shell: membership", "shells are filled over their width"]),
    "C18": dict(rule="distinct (catalogue, objects, forms of the selection, operation), resolution limits against sizes, and (operation, profile) of settings tried",
                need=["a refused selection leaves no files", "a selection means the same in any form", "objects with too few particles are left out",
                      "the number of objects that is reported", "a flag that is not a boolean is refused", "incomplete settings are refused", "settings mean the same in any form",
                      "a parameter of another profile is refused", "particles that do not exist are refused", "an unknown unit is refused"]
                + ["%s: %s selection is refused" % (o, k) for k in ("empty", "repeated", "too large", "negative", "fractional") for o in
                   ("getMassesCenters", "getShapeCatLocal", "getShapeCatGlobal", "getShapeCatVelLocal", "getShapeCatVelGlobal", "estDensProfs, spherical", "estDensProfs, ellipsoidal",
                    "estDensProfs, kernel", "fitDensProfs", "estConcentrations", "plotDensProfs", "vizLocalShapes", "vizGlobalShapes", "plotShapeProfs", "plotLocalTHist", "plotGlobalTHist",
                    "plotLocalEpsHist", "plotGlobalEpsHist", "dumpShapeCatLocal", "dumpShapeCatGlobal", "dumpShapeVelCatLocal", "dumpShapeVelCatGlobal")]),
    "C24": dict(rule="distinct (operation, threads, assignment of iterations to threads) executed", variant="tsan", san_violation=False,
                need=["%s: %s" % (o, w) for o in ("local", "global", "centres", "sph", "kernel", "ell", "object catalogue", "velocity local", "velocity global")
                      for w in ("no data race", "same result as on one thread")] + ["loops shared between threads"]),
    "C19": dict(rule="distinct (operation, threads, objects, size), (hostile input, radii, limits) and (snapshot type, objects) run under the sanitizers", variant="asan",
                need=["%s: no sanitizer report" % o for o in ("local", "global", "centres", "sph", "kernel", "ell", "velocity local", "velocity global", "tables")]
                + ["no result depends on memory that nobody wrote", "calls that returned", "hostile calls that were refused", "nothing is lost: local"]),
    "C20": dict(rule="distinct (processes, group files, kind of catalogue, operations) run", shards=4,
                need=["%s: same on any number of processes" % k for k in ("snapshot", "arrays")] + ["files are the same on any number of processes", "every process finishes",
                      "no process fails where one alone succeeds", "more processes than group files", "more group files than processes"]),
    "C21": dict(rule="distinct (figure, objects, mass bins, unclassified rows), (histogram, counts per bin) and pictures (radii, faces straddled, axis ratio) seen",
                need=["shape profiles of all objects: median", "shape profiles of a mass bin: median", "density profiles of a mass bin: the fit is that of the median",
                      "the legend names the masses of the bin", "the particles are shown where they are, next to the centre", "the ellipsoid is that of the object",
                      "pictures of objects across the box", "radii without an object"]
                + ["%s: share of the objects per bin" % k for k in ("local T", "global T", "local eps", "global eps")]),
    "C22": dict(rule="distinct (model parameters), (redshift, matter), (points, axes) and (mantissa, exponent) seen",
                need=["NFW density", "Hernquist density", "alpha-beta-gamma density", "Einasto density", "critical density", "virial overdensity",
                      "the particles make up the mass of the box", "points lie on the ellipsoid", "points cover the sphere", "equal axes have one length", "the label shows the number"]),
    "C23": dict(rule="distinct (objects, bins, ties), (average, sizes), (table, probability) and (sample sizes, probability) seen",
                need=["every object is in one mass bin", "the masses of a bin lie within its edges", "median", "error of the mean", "bootstrapped error of the mean", "chi square of a table",
                      "distance between two samples", "profiles are compared at equal radii", "a bin has the vectors of its objects"]),
    "C25": dict(rule="distinct (kernel, points, selection, edges filled) and (kernel, order, kind of matrix, scale) seen", probes=True, need=[]),
}
