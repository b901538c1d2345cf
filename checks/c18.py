"""C18: selections and settings that make no sense are refused before anything happens; all accepted forms mean the same."""
import contextlib, io, os, re, shutil
import numpy as np
import gen, snap
from harness import Skip, set_threads


def run(ctx):
    for i, rng in ctx.cases(800, 12000):
        d = os.path.join(os.getcwd(), "c%s_%d" % (ctx.case, ctx.seed))
        os.makedirs(d, exist_ok=True)
        cwd = os.getcwd()
        try:
            selections(ctx, rng, d)
        except Skip:
            pass
        finally:
            os.chdir(cwd)
            gen.internal_units()
            shutil.rmtree(d, ignore_errors=True)
    for i, rng in ctx.cases(2000, 30000, "min"):
        with contextlib.suppress(Skip):
            least(ctx, rng)
    for i, rng in ctx.cases(300, 5000, "cfg"):
        with contextlib.suppress(Skip):
            settings(ctx, rng)


FORMS = ["list", "int array", "int32 array", "whole float list", "whole float array", "strided"]


def form(rng, sel, kind):
    sel = [int(v) for v in sel]
    if kind == "list":
        return sel
    if kind == "int array":
        return np.array(sel)
    if kind == "int32 array":
        return np.array(sel, np.int32)
    if kind == "whole float list":
        return [float(v) for v in sel]
    if kind == "whole float array":
        return np.array(sel, float)
    return np.array([v for s in sel for v in (s, -9)])[::2]


def bad(rng, n, kind):
    """A selection that makes no sense for a catalogue of n objects (as a list)."""
    ok = list(map(int, rng.permutation(n)[:int(rng.integers(1, n + 1))]))
    at = int(rng.integers(len(ok)))
    if kind == "empty":
        return []
    if kind == "repeated":
        ok.insert(int(rng.integers(len(ok) + 1)), ok[at])
    elif kind == "too large":
        ok[at] = n if rng.random() < .6 else n + int(rng.choice([1, 7, 10 ** 6]))
    elif kind == "negative":
        ok[at] = -int(rng.choice([1, 1, 2, n, n + 1]))
    else:
        ok[at] = ok[at] + float(rng.choice([.5, .25, 1e-3, -.5, .999]))
    return ok


BAD = ["empty", "repeated", "too large", "negative", "fractional"]


def selections(ctx, rng, d):
    import cosmic_profiles as cp
    import matplotlib.pyplot as plt
    gen.internal_units()
    set_threads(int(rng.integers(1, 4)))
    gadget = rng.random() < .35
    cat = gen.catalogue(rng, nobj=int(rng.choice([1, 2, 3, 4, 11])), nmin=40, nmax=120, velocities=True, overlap=not gadget, periodic=True if gadget else None)
    viz, dest = os.path.join(d, "viz"), os.path.join(d, "cat")
    if gadget:
        part, fof, subs, cat = snap.population(rng, cat, (1.0, 1.0, 1.0), 1, 10)
        sp = snap.write_hdf5(os.path.join(d, "snap_024"), {1: part}, snap.header(rng, BoxSize=cat.L, Redshift=0.0, Time=1.0), 1, rng)
        snap.write_fof(os.path.join(d, "g"), fof, subs, 1, rng)
        make = lambda: cp.DensShapeProfsGadget(sp, os.path.join(d, "g"), "dm", "024", viz, dest, MIN_NUMBER_PTCS=10)
    else:
        idx = [np.int32(i) for i in cat.idx]
        make = lambda: cp.DensShapeProfs(cat.xyz, cat.m, idx, cat.r200, cat.L, "000", viz, dest, MIN_NUMBER_PTCS=1, CENTER=str(rng.choice(["com", "mode"])))
    n = len(cat.idx)
    cfg = gen.katz(rng, nr=3)
    R = np.logspace(-1.2, 0, 8)
    meth = {"profile": "nfw", "min_method": "L-BFGS-B"}
    ctx.describe(meta=cat.meta, gadget=gadget, n=n)
    with ctx.target("constructor"):
        o = make()

    def dens(k):
        return np.abs(rng.normal(size=(k, len(R)))) + 1.0
    ops = {
        "getMassesCenters": lambda s, o=o: o.getMassesCenters(s),
        "getShapeCatLocal": lambda s: o.getShapeCatLocal(s, cfg),
        "getShapeCatGlobal": lambda s: o.getShapeCatGlobal(s, cfg),
        "estDensProfs, spherical": lambda s: o.estDensProfs(R, s, direct_binning=True, spherical=True),
        "estDensProfs, ellipsoidal": lambda s: o.estDensProfs(R, s, direct_binning=True, spherical=False, katz_config=cfg),
        "estDensProfs, kernel": lambda s: o.estDensProfs(R, s, direct_binning=False),
        "fitDensProfs": lambda s: o.fitDensProfs(dens(len(s)), R, meth, s),
        "estConcentrations": lambda s: o.estConcentrations(dens(len(s)), R, meth, s),
    }
    files = {
        "plotDensProfs": lambda s: o.plotDensProfs(dens(len(s)), R, dens(len(s)), R, meth, 2, s),
        "vizLocalShapes": lambda s: o.vizLocalShapes(s, cfg),
        "vizGlobalShapes": lambda s: o.vizGlobalShapes(s, cfg),
        "plotShapeProfs": lambda s: o.plotShapeProfs(2, s, cfg),
        "plotLocalTHist": lambda s: o.plotLocalTHist(5, .5, s, cfg),
        "plotGlobalTHist": lambda s: o.plotGlobalTHist(5, s, cfg),
        "plotLocalEpsHist": lambda s: o.plotLocalEpsHist(.5, 5, s),
        "plotGlobalEpsHist": lambda s: o.plotGlobalEpsHist(5, s),
        "dumpShapeCatLocal": lambda s: o.dumpShapeCatLocal(s, cfg),
        "dumpShapeCatGlobal": lambda s: o.dumpShapeCatGlobal(s, cfg),
    }
    if gadget:
        ops.update({"getShapeCatVelLocal": lambda s: o.getShapeCatVelLocal(s, cfg), "getShapeCatVelGlobal": lambda s: o.getShapeCatVelGlobal(s, cfg)})
        files.update({"dumpShapeVelCatLocal": lambda s: o.dumpShapeVelCatLocal(s, cfg), "dumpShapeVelCatGlobal": lambda s: o.dumpShapeVelCatGlobal(s, cfg)})
    # what is asked for later must not be affected
    good = [int(v) for v in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    pure = ["getMassesCenters", "getShapeCatLocal", "getShapeCatGlobal", "estDensProfs, spherical", "estDensProfs, kernel"]
    probe = str(rng.choice(pure))
    with ctx.target(probe):
        ref = ops[probe](good)
    before = tree(d)
    allops = dict(ops, **files)
    for name in sorted(allops):
        for kind in BAD:
            s = bad(rng, n, kind)
            if kind == "empty":
                arg = [] if rng.random() < .5 else np.empty(0, np.int32)
            elif kind == "fractional":
                arg = s if rng.random() < .5 else np.array(s)
            else:
                arg = form(rng, s, str(rng.choice(FORMS)))
            ctx.expect_raises(ValueError, lambda: allops[name](arg), "%s: %s selection is refused" % (name, kind), selection=s, n=n)
            if ctx._viol_case:
                return
    ctx.check(tree(d) == before, "a refused selection leaves no files", new=sorted(set(tree(d)) - set(before))[:5])
    ctx.sig("bad", gadget, n, len(allops))
    # another number of rows than objects
    for name in ("fitDensProfs", "estConcentrations", "plotDensProfs"):
        k = len(good) + int(rng.choice([-1, 1, 2])) if len(good) > 1 else 2
        f = {"fitDensProfs": lambda: o.fitDensProfs(dens(k), R, meth, good), "estConcentrations": lambda: o.estConcentrations(dens(k), R, meth, good),
             "plotDensProfs": lambda: o.plotDensProfs(dens(k), R, dens(k), R, meth, 2, good)}[name]
        ctx.expect_raises(ValueError, f, "%s: profiles of other objects are refused" % name, rows=k, objects=len(good))
    ctx.expect_raises(ValueError, lambda: o.estDensProfs(R[:2], good, direct_binning=True, spherical=False, katz_config=cfg), "ellipsoidal shells need three radii")
    # all forms of the same selection mean the same
    for kind in FORMS:
        if kind == "whole float array":      # not among the documented forms
            continue
        with ctx.target("%s with a selection given as %s" % (probe, kind)):
            got = ops[probe](form(rng, good, kind))
        ctx.check(same(got, ref), "a selection means the same in any form", form=kind, op=probe, selection=good)
        ctx.sig("form", kind, probe, n, len(good))
    plt.close("all")


def tree(d):
    return sorted(os.path.join(r, f) for r, ds, fs in os.walk(d) for f in list(fs) + list(ds))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.names:
        return all(same(a[f], b[f]) for f in a.dtype.names)
    if a.dtype.kind in "fc":
        return np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True)
    return np.array_equal(a, b)


def least(ctx, rng):
    """Objects below the least number of particles are left out; the others keep their order and their radii."""
    import cosmic_profiles as cp
    gen.internal_units()
    k = int(rng.integers(1, 9))
    mn = int(rng.choice([1, 2, 5, 10, 30, 200]))
    sizes = [max(1, mn + int(rng.choice([-1, 0, 1, 0, -1, 5, -mn + 1, 40]))) for _ in range(k)]
    if all(v < mn for v in sizes):
        sizes[int(rng.integers(k))] = mn
    tot = sum(sizes)
    xyz = rng.random((tot + 50, 3)) * 20
    m = rng.uniform(.5, 2, tot + 50)
    perm = rng.permutation(tot + 50)
    off = np.concatenate([[0], np.cumsum(sizes)])
    idx = [perm[off[j]:off[j + 1]].astype(np.int32) for j in range(k)]
    r200 = rng.uniform(.1, 3, k)
    arg = idx if rng.random() < .5 else [list(map(int, v)) for v in idx]
    if k == 1 and rng.random() < .5:
        arg = arg[0] if isinstance(arg[0], list) else arg
    default = mn == 200 and rng.random() < .5
    ctx.describe(sizes=sizes, least=mn)
    with ctx.target("constructor"):
        o = cp.DensShapeProfs(xyz, m, arg, r200 if k > 1 or rng.random() < .5 else float(r200[0]), 0.0, "000", "./viz", "./cat", CENTER="com",
                              **({} if default else {"MIN_NUMBER_PTCS": mn}))
    keep = [j for j in range(k) if sizes[j] >= mn]
    ctx.sig("least", mn, tuple(np.sign(np.array(sizes) - mn)))
    with ctx.target("getIdxCat"):
        ci, cs = o.getIdxCat()
        r = o.getR200()
    ctx.check(np.array_equal(cs, [sizes[j] for j in keep]), "objects with too few particles are left out", got=cs, sizes=sizes, least=mn)
    if ctx._viol_case:
        return
    ctx.check(np.array_equal(ci, np.concatenate([idx[j] for j in keep])), "the objects that are left keep their particles and order")
    ctx.close(r, r200[keep], "the objects that are left keep their sizes", rtol=1e-6)
    sel = rng.permutation(len(keep))[:int(rng.integers(1, len(keep) + 1))]
    with ctx.target("getMassesCenters"):
        mc = o.getMassesCenters(sel)
    ctx.close(mc["mass"], [m[idx[keep[s]]].sum() for s in sel], "numbers refer to the objects that are left", rtol=1e-6)
    buf = io.StringIO()
    with ctx.target("getObjInfo"), contextlib.redirect_stdout(buf):
        o.getObjInfo()
    f = re.search(r"sufficient resolution: (\d+)", buf.getvalue())
    ctx.check(f is not None and int(f.group(1)) == len(keep), "the number of objects that is reported", got=buf.getvalue()[-300:], expected=len(keep))
    ctx.expect_raises(ValueError, lambda: o.getMassesCenters([len(keep)]), "objects that were left out cannot be selected", n=len(keep))


def settings(ctx, rng):
    import cosmic_profiles as cp
    gen.internal_units()
    x, _ = gen.cloud(rng, 200)
    xyz, m = np.float64(x + 5), np.ones(200)
    with ctx.target("constructor"):
        o = cp.DensShapeProfs(xyz, m, [np.arange(200, dtype=np.int32)], np.array([1.0]), 0.0, "000", "./viz", "./cat", MIN_NUMBER_PTCS=10, CENTER="com")
    good = gen.katz(rng, nr=3)
    R = np.logspace(-1.2, 0, 8)
    shapes = {"getShapeCatLocal": lambda c: o.getShapeCatLocal([0], c), "getShapeCatGlobal": lambda c: o.getShapeCatGlobal([0], c),
              "estDensProfs": lambda c: o.estDensProfs(R, [0], direct_binning=True, spherical=False, katz_config=c)}
    name = str(rng.choice(sorted(shapes)))
    f = shapes[name]
    ctx.describe(op=name)
    with ctx.target(name):
        ref = f(good)
    for key in ("REDUCED", "SHELL_BASED"):
        for v in (1, 0, "True", None, 1.0, np.bool_(True)):
            ctx.expect_raises(AssertionError, lambda: f(dict(good, **{key: v})), "a flag that is not a boolean is refused", op=name, key=key, value=repr(v))
    ctx.expect_raises(AssertionError, lambda: f(dict(good, ROverR200=.5)), "a single number for the radii is refused", op=name)
    for key in good:
        c = dict(good)
        del c[key]
        ctx.expect_raises(KeyError, lambda: f(c), "incomplete settings are refused", op=name, key=key)
    c = dict(good, ROverR200=list(map(float, good["ROverR200"])))
    with ctx.target(name + " with the radii in a list"):
        got = f(c)
    ctx.check(same(got, ref), "settings mean the same in any form", op=name)
    with ctx.target(name + " with converted settings"):
        got = f(dict(good, IT_TOL=np.float32(good["IT_TOL"]) if np.float32(good["IT_TOL"]) == good["IT_TOL"] else good["IT_TOL"], IT_WALL=np.int64(good["IT_WALL"]), IT_MIN=float(good["IT_MIN"])))
    ctx.check(same(got, ref), "settings mean the same in any form", op=name)
    # fitting methods
    dens = np.abs(rng.normal(size=(1, len(R)))) + 1
    allowed = {"einasto": {"rho_s", "alpha", "r_s"}, "alpha_beta_gamma": {"rho_s", "alpha", "beta", "gamma", "r_s"}, "nfw": {"rho_s", "r_s"}, "hernquist": {"rho_s", "r_s"}}
    fits = {"fitDensProfs": lambda me: o.fitDensProfs(dens, R, me, [0]), "estConcentrations": lambda me: o.estConcentrations(dens, R, me, [0])}
    fn = str(rng.choice(sorted(fits)))
    f = fits[fn]
    prof = str(rng.choice(sorted(allowed)))
    for me, what in [({"profile": v}, "an unknown profile is refused") for v in ("NFW", "burkert", "", None, 3)] + \
            [({"r_s": .1}, "a method without a profile is refused")] + \
            [({"profile": prof, "min_method": v}, "an unknown minimizer is refused") for v in ("BFGS", "powell", None, "")] + \
            [({"profile": prof, k: .5}, "a parameter of another profile is refused") for k in ("alpha", "beta", "gamma", "c", "R_s", "profil") if k not in allowed[prof]]:
        ctx.expect_raises(AssertionError, lambda: f(me), what, op=fn, method=repr(me))
    ctx.expect_raises((AssertionError, TypeError), lambda: f([("profile", prof)]), "a method that is not a dictionary is refused", op=fn)
    # particles, masses and objects that do not fit together
    k = int(rng.choice([-1, 1, -50]))
    ctx.expect_raises(AssertionError, lambda: cp.DensShapeProfs(xyz, np.ones(200 + k), [np.arange(50, dtype=np.int32)], np.array([1.0]), 0.0, "0", "./v", "./c"),
                      "masses of another number of particles are refused")
    ctx.expect_raises(AssertionError, lambda: cp.DensShapeProfs(xyz, m, np.arange(50, dtype=np.int32), np.array([1.0]), 0.0, "0", "./v", "./c"),
                      "a catalogue that is not a list is refused")
    # particles that do not exist
    for v in (200, 201, 10 ** 6, 2 * 10 ** 9, -601):
        i = np.arange(60)
        i[int(rng.integers(60))] = v
        ctx.expect_raises(IndexError, lambda: cp.DensShapeProfs(xyz, m, [i.astype(np.int32)], np.array([1.0]), 0.0, "0", "./v", "./c", MIN_NUMBER_PTCS=10).getMassesCenters([0]),
                          "particles that do not exist are refused", index=v)
    # units
    for bad in (("Mpch", "Msun", "km/s"), ("Mpc", "Msunh", "km/s"), ("Mpc", "Msun", "m/s"), ("mpc", "Msun", "km/s"), ("Mpc", "E+11Msun", "km/s")):
        for u in (cp.updateInUnitSystem, cp.updateOutUnitSystem):
            ctx.expect_raises(AssertionError, lambda: u(*bad, gen.H), "an unknown unit is refused", units=bad)
    gen.internal_units()
    ctx.sig("cfg", name, fn, prof)
