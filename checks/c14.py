"""C14: velocity-dispersion shapes of snapshot objects follow the documented iteration."""
import os, shutil
import numpy as np
import gen, refs, snap
from harness import Skip, set_threads, load

c01 = load("c01")
c02 = load("c02")


def run(ctx):
    tmp = os.getcwd()
    for i, rng in ctx.cases(1400, 30000):
        d = os.path.join(tmp, "vel%s_%d" % (ctx.case, ctx.seed))
        try:
            one(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ctx, rng, d):
    import cosmic_profiles as cp
    typ = str(rng.choice(["dm", "stars", "gas"]))
    ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 5)), nmin=40, nmax=int(rng.choice([120, 400, 1500], p=[.4, .4, .2])), velocities=True, overlap=False,
                        periodic=True)
    h = float(rng.uniform(.5, .9))
    z = float(rng.choice([0.0, 1.0, 3.0]))
    cp.updateInUnitSystem("kpc/h", "E+10Msun/h", "km/s", h)
    ou = str(rng.choice(["kpc/h", "Mpc/h"]))
    cp.updateOutUnitSystem(ou, "E+10Msun/h", "km/s", h)
    of = 1e3 if ou == "kpc/h" else 1.0
    a = 1 / (1 + z)
    minpt = 10
    part, fof, subs, cat = snap.population(rng, cat, (1e3, 1.0, 1 / np.sqrt(a)), ptype, minpt)
    head = snap.header(rng, BoxSize=cat.L * 1e3, Redshift=z, Time=a)
    if rng.random() < .5:
        sp = snap.write_hdf5(os.path.join(d, "snap_024"), {ptype: part}, head, int(rng.choice([1, 2])), rng)
    else:
        sp = snap.write_binary(os.path.join(d, "snap_024"), {ptype: part}, head, int(rng.choice([1, 2])), rng, int(rng.choice([1, 2])))
    snap.write_fof(os.path.join(d, "g"), fof, subs, int(rng.choice([1, 3])), rng)
    which = str(rng.choice(["Rvir", "R200"]))
    r200s = cat.rvir if which == "Rvir" else cat.r200m
    center = str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng)
    set_threads(int(rng.integers(1, 9)))
    with ctx.target("DensShapeProfsGadget"):
        o = cp.DensShapeProfsGadget(sp, os.path.join(d, "g"), typ, "024", d + "/viz", d + "/cat", RVIR_OR_R200=which, MIN_NUMBER_PTCS=minpt, CENTER=center)
        n = len(o.getIdxCat()[1])
    if not ctx.check(n == len(cat.idx), "all objects are found", got=n, expected=len(cat.idx)):
        return
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    selarg = sel.tolist() if rng.random() < .5 else sel
    ctx.describe(meta=cat.meta, type=typ, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, center=center, sel=sel, radius=which, z=z)
    with ctx.target("getShapeCatVelLocal"):
        loc = o.getShapeCatVelLocal(selarg, cfg)
    with ctx.target("getShapeCatVelGlobal"):
        glo = o.getShapeCatVelGlobal(selarg, cfg)
    ploc = None
    if rng.random() < .3:       # positions are analysed by the same class
        with ctx.target("getShapeCatLocal"):
            ploc = o.getShapeCatLocal(selarg, cfg)
    nr = len(cfg["ROverR200"])
    for nm, r, sh in (("velocity local", loc, (len(sel), nr)), ("velocity global", glo, (len(sel),))):
        ctx.check(all(r[f].shape == sh + ((3,) if f in ("minor", "inter", "major") else ()) for f in c01.FIELDS), nm + ": result shapes")
        c02.valid(ctx, r, nm)
    for k, ob in enumerate(sel):
        ii = cat.idx[ob]
        x, m, v = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii], cat.v[ii]
        c, amb = refs.centre(x, m, center)
        x, vb = x - c, refs.com(v, m)
        v = v - vb
        kw = dict(reduced=cfg["REDUCED"], tol=cfg["IT_TOL"], wall=cfg["IT_WALL"], itmin=cfg["IT_MIN"], near=1e-6, near_err=1e-3)
        r200 = r200s[ob]
        for j, R in enumerate(cfg["ROverR200"]):
            dd = r200 * R
            delta = None
            if cfg["SHELL_BASED"]:
                delta = dd if j == 0 else r200 * (R - cfg["ROverR200"][j - 1])
            ref = judge(rng, x, m, dd, delta, v, vb, kw)
            ref["amb"] |= amb
            c01.compare(ctx, loc, k, j, ref, dd * of, "velocity local shell" if cfg["SHELL_BASED"] else "velocity local ellipsoid", qtol=3e-4)
            if ploc is not None:
                ref = refs.katz(x, m, dd, delta, **kw)
                ref["amb"] |= amb
                c01.compare(ctx, ploc, k, j, ref, dd * of, "positions of a snapshot")
        ref = judge(rng, x, m, r200 + 6.0, None, v, vb, kw)
        ref["amb"] |= amb
        c01.compare(ctx, glo, k, None, ref, (r200 + 6.0) * of, "velocity global", qtol=3e-4)


def judge(rng, x, m, d, delta, v, vb, kw):
    """An outcome that hinges on a rounding of the mean velocity is left undecided."""
    ref = refs.katz(x, m, d, delta, v=v, **kw)
    for k in range(3):
        e = vb * rng.choice([-1, 1]) if k < 2 else rng.normal(size=3) * np.abs(vb).max()
        o = refs.katz(x, m, d, delta, v=v + e * 1e-9, **kw)
        ref["amb"] |= o["amb"] or o["ok"] != ref["ok"] or (bool(ref["ok"]) and (o["it"] != ref["it"] or abs(o["q"] - ref["q"]) > 1e-4 * ref["q"]
                                                                               or abs(o["s"] - ref["s"]) > 1e-4 * ref["s"]))
    return ref
