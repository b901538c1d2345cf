"""Writes properties.jsonl and MANIFEST.json for the properties that have a check (run by hand after editing)."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import REG  # noqa: E402

S = "cosmic_profiles/shape_profs/"
D = "cosmic_profiles/dens_profs/"
C = "cosmic_profiles/common/"
G = "cosmic_profiles/gadget/"
H = "cosmic_profiles/cython_helpers/helper_class.pyx"
M = "cosmic_profiles/mock_tools/"

P = {}


def p(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    P[pid] = dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None)),
        technique=technique, note=note)


p("C01", "Shapes follow the documented iterative shape-tensor algorithm",
  "For every object and radius the reported axis ratios, axis directions and convergence flag are those of the iterative (Katz) shape-tensor algorithm with the requested radius, shell or ellipsoid, reduced or plain tensor, tolerance, iteration limit and minimum particle number, on the object's own particles and masses around its own centre. A radius whose iteration runs out of iterations or of particles is reported as unclassified; a radius whose iteration converges is reported as classified.",
  ["inputs", "configurations"],
  "All point clouds, masses, object catalogues, radii and algorithm settings (shell/ellipsoid, reduced/plain, tolerance, iteration and particle limits, local and global).",
  "The tests compare a handful of seeded mock halos of one configuration against wide bounds; which particles are selected in each iteration depends on every coordinate and every setting.",
  [S + "shape_profs_algos.pyx", H],
  [("iteration over shells/ellipsoids", S + "shape_profs_algos.pyx runShellAlgo, runEllAlgo, runShellVDispAlgo, runEllVDispAlgo"), ("shape tensor and its diagonalisation", H + " CythonHelpers")],
  ["getShapeCatLocal", "getShapeCatGlobal"],
  "runtime monitor: online oracle, an independent reference iteration over the same particles for every (object, radius) observed",
  "Held on the generated catalogues only (clouds of 5..1000s of particles, 1..8 objects). Observations whose reference hinges on rounding (a particle within 1e-9 of an edge, an error within 1e-6 of the tolerance) count as undecided. Trusts numpy's eigh.")

p("C02", "Reported shapes are valid: 0<s<=q<=1, orthonormal principal axes",
  "Every classified shape has 0 < s <= q <= 1 and three mutually orthogonal unit vectors as axes; every unclassified one is undefined (NaN) in its ratios and axes, and its flag says so. The reported distances are the requested radii times the object's size, and every object that was asked for has exactly one row.",
  ["inputs", "configurations"],
  "All point clouds including thin, coplanar, collinear, coincident, aligned and tiny ones, all settings.",
  "Tests assert ranges for well-behaved mock halos; degenerate and sparse objects, objects aligned with the coordinate axes and mixtures of classified and unclassified radii are never generated.",
  [S + "shape_profs_algos.pyx", H],
  [("eigenvector ordering and normalisation", H), ("marking of unclassified rows", S + "shape_profs_algos.pyx")],
  ["getShapeCatLocal", "getShapeCatGlobal"],
  "runtime monitor: invariant assertions on every returned shape catalogue under hostile point clouds",
  "Invariants asserted on every row returned for the generated catalogues, including degenerate clouds.")

p("C03", "Results follow rotations, mirrorings, translations, mass and length rescalings",
  "Rotating, mirroring or translating all particles (without a box) turns axes and centres along and leaves axis ratios, masses and densities alone; rescaling lengths or masses rescales only what has that dimension; permuting the particles, or splitting a particle into coincident parts of its mass, changes nothing.",
  ["inputs"], "All point clouds, masses, catalogues, settings, and all rotations, mirrorings, translations, scalings, permutations.",
  "It relates two runs on transformed inputs; the tests never run a transformed input.",
  [S + "shape_profs_algos.pyx", D + "dens_profs_algos.pyx", C + "python_routines.py"],
  [("centre definition", C + "python_routines.py calcMode, calcCoM"), ("shape tensor", H), ("binning", D + "dens_profs_algos.pyx")],
  ["getShapeCatLocal", "getShapeCatGlobal", "estDensProfs", "getMassesCenters"],
  "runtime monitor: metamorphic trace checker over pairs of executions on transformed inputs",
  "Pairs of executions compared; comparisons whose reference hinges on rounding are undecided. Mode centres are only compared under length scalings by powers of 0.83 (their start radius is absolute by design).")

p("C04", "Objects are treated the same wherever they lie in the periodic box",
  "Shifting all particles of a periodic box by any vector (positions wrapped back into the box) leaves shapes, masses and density profiles of every object as they are and moves its centre by that vector modulo the box. The same object given contiguously without a box has the same shapes and profiles.",
  ["inputs"], "All boxes, shifts, and objects smaller than half the box, straddling any of its faces, edges and corners.",
  "Test halos sit at fixed places; straddling each face, edge or corner is a matter of where an object lies.",
  [C + "python_routines.py", S + "shape_profs_algos.pyx", D + "dens_profs_algos.pyx", C + "cosmic_base_class.pyx"],
  [("contiguous object reconstruction", C + "python_routines.py respectPBCNoRef"), ("recentring into the box", C + "python_routines.py recentreObject")],
  ["getShapeCatLocal", "getShapeCatGlobal", "estDensProfs", "getMassesCenters"],
  "runtime monitor: metamorphic trace checker over executions on shifted boxes",
  "Generated objects are smaller than half the box; shifts are generated so that objects straddle 0..3 faces.")

p("C05", "Each object's result depends on that object alone",
  "What is computed for an object does not depend on the other objects, on which objects are selected or in which order, on what was computed before on the same instance, or on the number of threads; and no computation changes the particles, masses, catalogue or profiles that the user passed in.",
  ["schedules", "histories", "inputs"], "All call sequences on one or several instances, selections, companions, thread counts and thread schedules.",
  "Tests make one call of each kind on one catalogue; scratch buffers shared between objects and threads, and leftovers from an earlier call, only show in mixed sizes, mixed calls and many threads.",
  [S + "shape_profs_algos.pyx", D + "dens_profs_algos.pyx", D + "dens_profs_classes.pyx", S + "shape_profs_classes.pyx", C + "cosmic_base_class.pyx"],
  [("per-thread scratch buffers", S + "shape_profs_algos.pyx calcMorphLocal, calcMorphGlobal"), ("per-object parallel loops", D + "dens_profs_algos.pyx"), ("pools of fit workers", D + "dens_profs_tools.py")],
  ["getShapeCatLocal", "getShapeCatGlobal", "estDensProfs", "fitDensProfs", "getMassesCenters"],
  "runtime monitor: history checker (each operation of a random call sequence against the same operation on a fresh instance), thread-count stress, input-mutation monitor",
  "Sequences of up to about 10 operations, 1..16 threads on 8 cores; schedules are those the OpenMP runtime produced.",
  state=[("scratch buffers", "per-thread working arrays that outlive an object", S + "shape_profs_algos.pyx")])

p("C06", "Masses and centres of objects are those of their own particles",
  "An object's mass is the sum of its members' masses and its centre is their centre of mass or the mode of the shrinking-sphere search, whichever was chosen, wherever the object lies in the periodic box. The reported centre lies inside the box, and recentred particles are the same object around the new centre.",
  ["inputs", "configurations"], "All point clouds (including coincident particles), masses, boxes and both centre definitions.",
  "Tests only check a few mock halos away from the faces; the centre moves with every member's position and mass.",
  [C + "python_routines.py", C + "cosmo_tools.py", C + "cosmic_base_class.pyx"],
  [("shrinking sphere", C + "python_routines.py calcMode"), ("centre of mass", C + "python_routines.py calcCoM"), ("periodic unwrapping", C + "python_routines.py respectPBCNoRef")],
  ["getMassesCenters", "calcMode", "calcCoM", "recentreObject"],
  "runtime monitor: online oracle, reference centre and mass for every object observed",
  "Reference and code compared at 1e-6 (the code sums masses in single precision by design).")

p("C07", "Spherical density profiles conserve mass",
  "The density in every spherical shell is the mass of the object's particles between the shell's edges over the shell's volume: each particle counts in exactly one shell, shells without particles are zero, and the profile integrated over the shells is the mass within the outermost radius.",
  ["inputs", "configurations"], "All point clouds, masses, radii grids, sizes and both centre definitions, including particles exactly on edges.",
  "The tests only compare profiles of large mock halos to loose bounds; conservation is a matter of every particle and every edge.",
  [D + "dens_profs_algos.pyx", C + "cosmic_base_class.pyx"],
  [("binning edges", D + "dens_profs_algos.pyx calcDensProfsSphDirectBinning"), ("parallel loop over objects", D + "dens_profs_algos.pyx")],
  ["estDensProfs"],
  "runtime monitor: conservation checker plus per-shell reference on every profile observed",
  "Per-shell comparison undecided for particles within rounding of an edge; conservation is decided for those too.")

p("C08", "Ellipsoidal density profiles use the object's own shape profile",
  "The density in every ellipsoidal shell is the mass of the particles between the shell's ellipsoids over the volume between them, with the ellipsoids taken from the object's own converged shape profile. Shells without particles are undefined, objects whose shape profile did not converge anywhere have no profile, and a known ellipsoidal density is recovered.",
  ["inputs", "configurations"], "All objects, radii grids and shape settings with radii that do and do not converge.",
  "Tests bound one median profile of large mock halos; unconverged radii, arbitrary axis signs and interpolation between shape radii never matter there.",
  [D + "dens_profs_algos.pyx", D + "dens_profs_classes.pyx", C + "cosmic_base_class.pyx"],
  [("shape interpolation and binning", D + "dens_profs_algos.pyx calcDensProfsEllDirectBinning"), ("alignment of axes", D + "dens_profs_algos.pyx")],
  ["estDensProfs"],
  "runtime monitor: online oracle, reference ellipsoidal binning from the shape profile that the code itself reports",
  "Uses the shape profile reported by the code (itself decided by C01). Undecided where neighbouring axes are nearly perpendicular.")

p("C09", "Kernel density profiles are the mass-weighted kernel sum",
  "The kernel-based density at a radius is the sum over the object's particles of mass times the documented radial kernel with that particle's own bandwidth, for every object and radius.",
  ["inputs", "configurations"], "All point clouds, masses, radii and sizes.",
  "Tests only bound a median profile of large mock halos.",
  [D + "dens_profs_algos.pyx", C + "cosmic_base_class.pyx"],
  [("kernel estimate", D + "dens_profs_algos.pyx calcDensProfsKernelBased")],
  ["estDensProfs"],
  "runtime monitor: online oracle, direct kernel sum for every (object, radius) observed",
  "Compared at single precision of the inputs the code uses (r200).")

p("C10", "Profile fits and concentrations describe the profile they were given",
  "Fitting a noiseless profile of the fitted model recovers its parameters and a fit describes a noisy profile no worse than the generating parameters; parameters that the user fixes stay fixed, empty or undefined bins carry no weight, and each row is the fit of its own object. The concentration is the object's size over its fitted scale radius; profiles without a usable bin are reported as not fitted.",
  ["inputs", "configurations"], "All four models, minimizers, fixed-parameter sets, noise, empty bins and object selections.",
  "Tests only require that fits of mock halos run and give roughly the right concentration for one minimizer and no fixed parameters.",
  [D + "dens_profs_tools.py", D + "dens_profs_classes.pyx", C + "cosmic_base_class.pyx"],
  [("cost and start values", D + "dens_profs_tools.py fitDensProfHelper"), ("assembly per object", C + "cosmic_base_class.pyx")],
  ["fitDensProfs", "estConcentrations"],
  "runtime monitor: fit-quality oracle (cost under the generating parameters) and invariants on every fit observed",
  "Strict for minimizers measured to be reliable (Nelder-Mead, L-BFGS-B for the two-parameter models), loose bounds elsewhere. Two known findings (Powell local minima, trust-constr ignoring fixed parameters).")

p("C11", "Results are in the units asked for, whatever the units of the input",
  "Giving the same data in other length, mass or velocity units, with or without h, changes no result, and asking for other output units changes exactly the unit in which lengths, masses and densities are expressed. Labels name the unit used.",
  ["configurations", "inputs"], "All combinations of accepted input and output unit strings or numbers, and h.",
  "Tests use one unit system; a missing conversion in one output is invisible there.",
  [C + "config.py", C + "python_routines.py", C + "cosmic_base_class.pyx", D + "dens_profs_classes.pyx", S + "shape_profs_classes.pyx"],
  [("unit system", C + "config.py"), ("conversion at the boundary", C + "cosmic_base_class.pyx, " + S + "shape_profs_classes.pyx")],
  ["getMassesCenters", "estDensProfs", "fitDensProfs", "estConcentrations", "getShapeCatLocal", "getR200", "getXYZMasses"],
  "runtime monitor: metamorphic trace checker over executions under different unit systems, plus the physical value of every dimensional output",
  "Units restricted to the accepted strings and numbers such that values fit in single precision.")


p("C12", "Gadget snapshots are read as written, in any format and file layout",
  "Positions, velocities, masses, particle IDs and header of a snapshot are what was written into it, in particle order, for HDF5 and for binary Gadget I and II files, one or several files, any mixture of particle types and any header mass table. A block or file that is missing or cut short is refused rather than replaced by other data.",
  ["inputs", "configurations", "crash_points"],
  "All snapshots: formats, splits over files including files without particles of a type, single or mixed types, 32- and 64-bit IDs, header masses, units, truncation points.",
  "No test reads a snapshot at all; which branch is taken depends on the format, on the split and on which types are present in which file.",
  [G + "readsnap.py", G + "readgadget.py"],
  [("header", G + "readgadget.py header"), ("blocks of a binary file", G + "readsnap.py"), ("assembly over files", G + "readgadget.py read_block")],
  ["readgadget.read_block", "readgadget.header"],
  "runtime monitor: write/read-back oracle over generated snapshots, with fault injection (removed blocks and files, truncation at every kind of place)",
  "Generated snapshots of up to some hundred particles per type; single-precision blocks as the readers expect.")

p("C13", "Objects of a snapshot are the qualifying central subhalos, in group order",
  "The catalogue built from FoF/SUBFIND tables has one object for every group whose central subhalo has at least the asked-for number of particles of the requested type, in group order; its members are exactly that subhalo's particles of that type, and its radius is that of its group by the chosen definition. Positions, masses, velocities and the counts the package reports refer to the same objects and type; tables with files or rows missing are refused.",
  ["inputs", "configurations"],
  "All group tables (groups without subhalos, with subhalos below, at and above the limit, with fuzz), splits over files, particle types, units and radius definitions.",
  "No test reads a group catalogue; particle offsets accumulate over all earlier groups, so an error needs particular group histories.",
  [G + "gen_catalogues.pyx", G + "read_fof.py", C + "cosmic_base_class.pyx"],
  [("central subhalos", G + "gen_catalogues.pyx calcObjCat"), ("tables", G + "read_fof.py getFoFSHData")],
  ["getIdxCat", "getR200", "getXYZMasses", "getVelXYZ", "getObjInfoGadget", "getMassesCenters"],
  "runtime monitor: online oracle, an independent catalogue construction from the written tables",
  "Generated tables of up to dozens of groups. A catalogue without any subhalo is excluded (it is refused loudly).")

p("C14", "Velocity-dispersion shapes follow the algorithm on the objects' velocities",
  "Local and global velocity-dispersion shapes are those of the iterative algorithm with the velocity dispersion tensor about the mean velocity of the object (globally) in place of the position tensor, on the particles within the requested radius. They obey the same validity rules as position shapes.",
  ["inputs", "configurations"],
  "All snapshots, objects, radii and algorithm settings.",
  "No test computes a velocity shape.",
  [S + "shape_profs_algos.pyx", S + "shape_profs_classes.pyx", H],
  [("velocity tensors", S + "shape_profs_algos.pyx runShellVDispAlgo, runEllVDispAlgo, calcMorphLocalVelDisp, calcMorphGlobalVelDisp")],
  ["getShapeCatVelLocal", "getShapeCatVelGlobal"],
  "runtime monitor: online oracle, an independent reference iteration for every (object, radius) observed",
  "As for C01, through generated snapshots.")

p("C15", "A dumped shape catalogue reads back as the result it was made from",
  "Dumping shapes writes, under their documented names, every requested object and radius with its centre and mass, and a later request for the same shapes, from this or any other instance on the same directory, returns what was computed, including unclassified rows. A dump that is incomplete or cannot be written is never taken for a result.",
  ["histories", "configurations", "crash_points"],
  "All catalogues, selections, numbers of objects and radii (one and many), settings, suffixes, units, orders of dumping and reading, and missing companion files.",
  "No test reads a dump back; shape and order of the saved arrays matter for one object, one radius and unclassified rows only.",
  [S + "shape_profs_classes.pyx", S + "shape_profs_tools.py", C + "cosmic_base_class.pyx"],
  [("writing", S + "shape_profs_classes.pyx dumpShapeCatLocalBase, dumpShapeCatGlobalBase"), ("reading", S + "shape_profs_classes.pyx getShapeCatLocalBase"), ("reshaping", S + "shape_profs_tools.py")],
  ["dumpShapeCatLocal", "dumpShapeCatGlobal", "dumpShapeVelCatLocal", "dumpShapeVelCatGlobal", "getShapeCatLocal", "getShapeCatGlobal"],
  "runtime monitor: history checker over dump/read sequences on several instances, with fault injection (missing companion files, unwritable directory)",
  "Files truncated in the middle by a crash are not covered (the package has no means to tell). Three known findings: a dump is re-read for another selection, other settings or other units.")

p("C16", "Caches are transparent, bounded and evict the least recently used",
  "A cached function returns what it would compute for these arguments, is not computed again while its result is remembered, remembers no failures, never holds more entries than it may, and evicts the least recently used; its statistics count every call once. This holds for calls from any number of threads, and group and object tables asked for in any interleaving are those of the files asked about.",
  ["histories", "schedules"],
  "All sequences and thread interleavings of calls, clears and statistics; all limits (none, zero, bounded, bounded by memory), typed and untyped keys, array arguments, and failing or recursive functions.",
  "No test exercises a cache beyond a first call; eviction order, linked-list surgery and locking only show over histories and concurrent use.",
  [C + "caching.py", G + "read_fof.py", G + "gen_catalogues.pyx"],
  [("bounded cache", C + "caching.py lru_cache"), ("array keys", C + "caching.py np_cache_factory")],
  ["lru_cache wrappers", "np_cache_factory wrappers", "cache_info", "cache_clear"],
  "runtime monitor: model-based history checker, and offline checker over recorded logs of concurrent calls (intervals of computation and return)",
  "Thread interleavings are those produced under injected delays and a short switch interval.",
  state=[("cache and linked list", "entries and their order of use", C + "caching.py")])

p("C17", "Generated halos have the mass, shells, shape and profile asked for",
  "A generated halo's particle masses add up to its mass, each ellipsoidal shell holds the number of particles that its share of the profile's mass calls for, no particle lies outside the outermost shell and no direction within a shell is preferred. It does not depend on the number of workers or on the state of the random generator, and the package finds the axis ratios and the orientation asked for.",
  ["inputs", "configurations"],
  "All profiles and parameters, axis-ratio profiles, resolutions and numbers of shells.",
  "Tests use halos only as inputs and bound derived quantities loosely.",
  [M + "mock_halo_gen.py", C + "python_routines.py"],
  [("shell populations", M + "mock_halo_gen.py genHalo"), ("drawing from shells", C + "python_routines.py drawUniformFromShell, drawUniformFromEllipsoid")],
  ["genHalo", "inShell"],
  "runtime monitor: conservation and membership checker plus statistical oracles at 1e-9 significance on every halo observed",
  "Distances within a shell are not uniform in volume by design, so only the shell populations and directions are tested.")

p("C18", "Selections, settings and units that make no sense are refused, before anything",
  "A selection that is empty, repeats an object, or names one that does not exist is refused by every operation before it computes or writes anything, and so are incomplete or ill-typed settings, unknown units, parameters of another profile and particles that do not exist. All documented forms of a selection or of a setting mean the same. Exactly the objects with fewer than MIN_NUMBER_PTCS particles are left out of a catalogue, and the number reported is the number kept.",
  ["inputs", "configurations"],
  "All selections and settings, in all forms, for all operations, and all catalogues with objects at the resolution limit.",
  "The tests only pass valid selections and settings; a refusal that is off by one, or that comes after a file was written, needs every operation to be tried at its limits.",
  [C + "python_routines.py", C + "cosmic_base_class.pyx", C + "config.py", S + "shape_profs_classes.pyx", D + "dens_profs_classes.pyx"],
  [("validation of selections and settings", C + "python_routines.py isValidSelection, checkKatzConfig, selectionToArray"), ("least number of particles", C + "cosmic_base_class.pyx __init__")],
  ["every public method of DensShapeProfs and DensShapeProfsGadget", "updateInUnitSystem", "updateOutUnitSystem"],
  "runtime monitor: refusal oracle (expected exception, and no file written) over every public operation and every kind of bad selection or setting",
  "Held for the generated selections and settings. A refused updateInUnitSystem may already have set little h; that is not asserted.")

p("C19", "Kernels never touch foreign or unwritten memory, leak, or compute UB",
  "Whatever the input, every call comes back with a result or with a Python exception: no index leaves its array (not even within a larger allocation), no memory is used after it was freed or before it was written, nothing that is undefined in C is computed, and no exception is swallowed. Repeating a call takes no further memory.",
  ["inputs", "configurations"],
  "All point clouds, masses, radii, settings and catalogues: degenerate, extreme, not finite, tiny, and contradictory group tables.",
  "An access outside of an array rarely changes a result; without instrumentation it is invisible, and tests use ordinary inputs of one size.",
  [H, S + "shape_profs_algos.pyx", D + "dens_profs_algos.pyx", "cosmic_profiles/gadget/gen_catalogues.pyx"],
  [("scratch rows per thread", S + "shape_profs_algos.pyx, " + D + "dens_profs_algos.pyx"), ("LAPACK workspaces", H + " ZHEEVR")],
  ["getShapeCatLocal", "getShapeCatGlobal", "getShapeCatVelLocal", "getShapeCatVelGlobal", "estDensProfs", "getMassesCenters", "calcObjCat"],
  "AddressSanitizer and UndefinedBehaviorSanitizer on the kernels, with Cython index checks forced on, garbage-filled fresh memory, a probe around LAPACK, and a heap-growth monitor",
  "Memory that numpy, scipy and LAPACK handle internally is not instrumented (LAPACK's buffers are checked by a probe). Held on the executions observed.")

p("C20", "Results do not depend on the number of MPI processes, and none hangs or fails",
  "Under MPI, process 0 returns and writes exactly what a single process would, whatever the number of processes and of group files (including more processes than files and files without groups). The other processes run the documented calls without failing, group files that cannot be read are an error on every process, and every process finishes.",
  ["configurations", "inputs"],
  "All numbers of processes, group catalogues split over any number of files, catalogues and sequences of operations.",
  "The tests run as one process; how files are dealt out, gathered and broadcast shows only with several, and only for particular remainders.",
  [G + "read_fof.py", G + "readgadget.py", C + "cosmic_base_class.pyx", S + "shape_profs_classes.pyx", D + "dens_profs_classes.pyx"],
  [("files dealt out to processes", G + "read_fof.py getFoFSHData"), ("results on process 0 only", C + "cosmic_base_class.pyx `if rank == 0`")],
  ["DensShapeProfsGadget", "getIdxCat", "getR200", "getShapeCatLocal", "estDensProfs", "fitDensProfs", "plotDensProfs"],
  "runtime monitor: recorded results, files and exceptions of every MPI process compared with those of a run with a single process",
  "Two to six processes on one machine (OpenMPI), up to twelve group files. Message timing is that of the machine; the code only uses collectives.")

p("C21", "Plots show the population: every object once, in its own bin and place",
  "Shape and density profile figures show, for all objects and for every mass bin, the median and quartile band of exactly the objects selected, at their radii; fitted curves are fits of that median; histograms of triaxiality and ellipticity count every object with a defined value once, and the complex ellipticity also has the object's direction. Pictures of an object show its particles, centre, ellipsoid and axes in one place, also across the box boundary; plotting leaves the caller's own figures alone.",
  ["inputs", "configurations"],
  "All catalogues, selections, numbers of bins, radii, centre definitions and output units.",
  "The tests only make figures; nothing looks at what is drawn in them.",
  [S + "shape_profs_tools.py", S + "shape_profs_classes.pyx", D + "dens_profs_tools.py", C + "cosmo_tools.py", C + "python_routines.py"],
  [("mass bins", C + "cosmo_tools.py M_split"), ("population averages", S + "shape_profs_tools.py getShape"), ("ellipticity", S + "shape_profs_tools.py getEpsilon"),
   ("pictures", S + "shape_profs_classes.pyx vizLocalShapes")],
  ["plotShapeProfs", "plotDensProfs", "plotLocalTHist", "plotGlobalTHist", "plotLocalEpsHist", "plotGlobalEpsHist", "vizLocalShapes", "vizGlobalShapes"],
  "runtime monitor: hooked figures read back when they are saved, compared with statistics of the shapes that the catalogue returns and of the particles",
  "Reads curves, bands, bars and points of matplotlib figures, not pixels. Values on the edge of a bin, members or centres that hinge on rounding, and mass bins that share a file name are undecided.")

p("C22", "Density models, cosmology, sphere points and labels obey their definitions",
  "NFW, Hernquist, Einasto and alpha-beta-gamma densities are those of their formulas at any radius and parameter. Critical density, particle mass and virial overdensity satisfy their defining relations; points on spheres and ellipsoids lie on them and cover them; a label shows the number that it is made from.",
  ["inputs"],
  "All radii and parameters over many orders of magnitude, redshifts, matter densities, axes, numbers of points and exponents from -19 to 19.",
  "The tests call these at one or two values and compare nothing.",
  [D + "dens_profs_tools.py", C + "python_routines.py"],
  [("density models", D + "dens_profs_tools.py get*Prof"), ("cosmology", C + "python_routines.py getDelta"), ("labels", C + "python_routines.py eTo10")],
  ["getNFWProf", "getHernquistProf", "getEinastoProf", "getAlphaBetaGammaProf", "getRhoCrit", "getMassDMParticle", "getDelta", "fibonacci_sphere", "fibonacci_ellipsoid", "eTo10", "set_axes_equal"],
  "runtime monitor: assertions of the defining relations on every call of a random workload (logarithms, identities between models, round trip of labels)",
  "Held on the values drawn; densities below the smallest normal number are not compared.")

p("C23", "Mass bins, averages with errors and independence tests are what they claim",
  "Splitting by mass puts every object with its centre and vectors into exactly one bin, equally filled and in order, between the edges returned. Averages, medians and their errors, chi-square tables and two-sample distances are those of their definitions; none depends on the order of its input or changes it.",
  ["inputs"],
  "All numbers of objects, bins, ties, sample sizes (including empty samples), tables and populations of profiles.",
  "The tests reach mass bins only through figures that nobody reads, and never call the tests of independence.",
  [C + "cosmo_tools.py"],
  [("mass bins", C + "cosmo_tools.py M_split"), ("averages", C + "cosmo_tools.py getMeanOrMedianAndError"), ("tests", C + "cosmo_tools.py chiSquareToICore")],
  ["M_split", "getMeanOrMedianAndError", "chiSquareToICore", "chiSquareToIMultiDim", "chiSquareToIShapeCurve", "KSTest"],
  "runtime monitor: conservation and reference assertions on every call of a random workload",
  "Degrees of freedom are only judged for tables without empty rows or columns (the code counts empty ones). The bootstrap is judged within a factor.")

p("C24", "Parallel loops are free of data races, whichever thread runs which object",
  "The loops that are shared between threads never let two threads touch the same memory without ordering, one of them writing, and their results are those of a single thread, however many threads there are and however the objects or radii are dealt out to them.",
  ["schedules", "inputs"],
  "All catalogues, operations, thread counts and assignments of iterations to threads.",
  "A race shows in a result only if two threads meet in the wrong nanosecond; the tests run a few objects and compare with wide bounds.",
  [S + "shape_profs_algos.pyx", D + "dens_profs_algos.pyx", "cosmic_profiles/gadget/gen_catalogues.pyx", H],
  [("parallel loops", S + "shape_profs_algos.pyx, " + D + "dens_profs_algos.pyx, cosmic_profiles/gadget/gen_catalogues.pyx prange")],
  ["getShapeCatLocal", "getShapeCatGlobal", "getShapeCatVelLocal", "getShapeCatVelGlobal", "estDensProfs", "getMassesCenters", "getIdxCat"],
  "ThreadSanitizer on the kernels with a stand-in OpenMP runtime that fixes which thread runs which iteration, plus comparison with the single-threaded result",
  "The stand-in runtime creates no ordering between iterations on different threads, so a race is reported whatever the timing; orderings that only real libgomp would create do not exist by specification of OpenMP. Held on the executions observed.")

p("C25", "Kernels exported to Cython code compute what they document, on any input",
  "Centre of mass, spread, wrapping into the box, shape tensor, eigensystem, and the mass and density binning on spheres and ellipsoids, called directly as other Cython code does, give the value of their definition for every number of points, every selection and every layout in memory. They do not change what they are only given to read, and do not depend on what their work space held before.",
  ["inputs"],
  "All numbers of points, selections, masses (also zero), strides, coincident points, exact ties at edges, matrices with equal and vanishing eigenvalues, and unnormalised axes.",
  "The tests never call the kernels; catalogues reach only the part of their inputs that the drivers happen to produce.",
  [H, H.replace(".pyx", ".pxd")],
  [("kernels", "cosmic_profiles/cython_helpers/helper_class.pxd CythonHelpers")],
  ["calcCoM", "calcLocalSpread", "respectPBCNoRef", "calcShapeTensor", "ZHEEVR", "calcDensProfBruteForceSph", "calcMenclsBruteForceSph", "calcDensProfBruteForceEll", "calcMenclsBruteForceEll", "calcKTilde"],
  "runtime monitor: assertions of the kernels' definitions on every call of a random workload, through probes compiled against the tree's own declarations",
  "Shape tensors are compared to single precision, in which the package sums their mass. A kernel whose declaration changed so that the probe no longer compiles is undecided, not a violation. Held on the values drawn.")


p("C26", "Any block of a binary snapshot can be read by name and particle type",
  "Reading a block by name from a binary snapshot (formats 1 and 2, either byte order, one or many subfiles, Gadget or Arepo block orders, with or without a mass block) gives exactly the stored values of the requested particle type, or of all types species by species, whichever subfiles hold no such particles. Masses that only the header gives are filled in, velocities are made physical unless asked otherwise, and a single subfile can be read on its own. A block that the type does not have, an unknown block, a file cut short or block sizes that contradict each other are refused instead of answered with other data.",
  ["inputs"],
  "All compositions of particle types, numbers of subfiles and their shares, header masses, block orders, ID widths and byte orders.",
  "The tests read one snapshot of one layout; offsets of species and blocks only matter with several types, subfiles and flavours.",
  ["cosmic_profiles/gadget/readsnap.py", "cosmic_profiles/gadget/readgadget.py"],
  [("block reader", "cosmic_profiles/gadget/readsnap.py read_block"), ("single subfiles", "cosmic_profiles/gadget/readgadget.py read_field")],
  ["readsnap.read_block", "readgadget.read_field"],
  "runtime monitor: values read from generated snapshots compared with what the generator wrote; refusals observed for damaged or contradicting files",
  "Files are written by the harness after the documented layout; blocks in single precision are outside (the reader documents double). Held on the files drawn.")

p("C27", "Sampled halos are recovered: mass, shape, orientation, densities, kinematics",
  "From particles drawn from ellipsoidal halos of known profile, the package reports the mass, centre, axis ratios and orientation (local and global), density profile (spherical, ellipsoidal and kernel based), scale radius, concentration and, given velocities, velocity ellipsoid of each halo within the sampling noise of its particles. This holds whether the halos are given as arrays or as a snapshot with its group catalogue, in any input and output units, for either centre definition, anywhere in or across the faces of a periodic box, and among other objects.",
  ["inputs"],
  "All halo populations (profile, particle number, axis ratios, orientation, position, units) with every stage of the pipeline chained: reading, centring, shapes, densities, fits, conversions.",
  "The tests run each stage on one halo and compare with stored numbers; an error that two stages share, or one only seen in other units, orientations or positions, agrees with the stored number or is never met.",
  ["cosmic_profiles/shape_profs/shape_profs_classes.pyx", "cosmic_profiles/dens_profs/dens_profs_classes.pyx", "cosmic_profiles/common/caching.py", "cosmic_profiles/gadget/"],
  [("shapes", "cosmic_profiles/shape_profs/shape_profs_classes.pyx getShapeCatLocal/Global, getShapeCatVelLocal/Global"),
   ("densities, fits", "cosmic_profiles/dens_profs/dens_profs_classes.pyx estDensProfs, fitDensProfs, estConcentrations")],
  ["DensShapeProfs", "DensShapeProfsGadget"],
  "runtime monitor: end-to-end runs on halos sampled from known distributions; every reported quantity compared with the one the halo was drawn from, within bounds for the sampling noise",
  "Bounds scale with 1/sqrt(N) and were calibrated on separate seeds: errors smaller than the noise are left to the exact references of C01, C06-C11 and C14. Held on the populations drawn.")

p("C28", "A failed operation says so and leaves nothing behind that changes later results",
  "When an operation fails (an argument is refused, output or disk fails, the destination is blocked, an input file is missing or damaged, the user interrupts, or the process is killed), the failure is reported to the caller and not swallowed, and the units, the caller's data and every other result are as if it had not been called. What a failed, interrupted or killed dump left is never taken for a result, neither by the same instance nor by a later process, and dumping again makes it complete and right. Once a missing or damaged input file is back, it is read as if nothing had happened.",
  ["inputs", "fault_sequences", "crash_points"],
  "All operations, all points at which output, storage or input can fail, and all sequences of a failure followed by other requests.",
  "The tests never let anything fail; what is left behind depends on the point of the failure and shows only in a later request or another process.",
  ["cosmic_profiles/common/cosmic_base_class.pyx", "cosmic_profiles/shape_profs/shape_profs_classes.pyx", "cosmic_profiles/common/python_routines.py", "cosmic_profiles/gadget/"],
  [("dumps", "cosmic_profiles/common/cosmic_base_class.pyx _dumpShapeCat*Base, _getShapeCat*Base"), ("memoised tables", "cosmic_profiles/common/caching.py np_cache_factory")],
  ["dumpShapeCatLocal/Global", "dumpShapeVelCatLocal/Global", "getShapeCat*", "plot*", "viz*", "read_fof", "read_hdf5"],
  "runtime monitor with fault injection: output, files and inputs are made to fail at chosen points (audit hook, file size limit, SIGXFSZ); state, files and later results compared with those of an untouched instance",
  "Faults strike Python level output and file operations; failures inside numpy or C allocations are not injected. Dumps read for another selection, settings or units than they were made with are known findings of C15. Held on the faults drawn.")


def write():
    ids = [k for k in sorted(P) if k in REG]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for k in ids:
            f.write(json.dumps(P[k]["prop"]) + "\n")
    man = dict(version=1, setup_cmd="bash ./setup.sh",
               checks=[dict(property=k, quick_cmd="bash ./check.sh %s quick" % k, thorough_cmd="bash ./check.sh %s thorough" % k,
                            technique=P[k]["technique"], level="exploration", level_note=P[k]["note"]) for k in ids],
               not_applicable=[],
               notes="No hooks in /repo: every monitor observes the public API, return values, files and captured plotting calls of a build of /repo's tree made by lib/builder.py.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    missing = [k for k in REG if k not in P]
    print("written", len(ids), "properties; without text:", missing)


if __name__ == "__main__":
    write()
