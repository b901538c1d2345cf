"""C02: every reported shape is a valid ellipsoid, or is entirely marked as unclassified."""
import os, shutil
import numpy as np
import gen, snap
from harness import Skip, set_threads


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(4000, 60000, until=.75):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(600, 12000, "sim"):
        d = os.path.join(os.getcwd(), "sim%s_%d" % (ctx.case, ctx.seed))
        try:
            simulation(ctx, rng, d)
        except Skip:
            continue
        finally:
            shutil.rmtree(d, ignore_errors=True)


def simulation(ctx, rng, d):
    """Shapes of a stored simulation, including objects whose velocities span less than three dimensions."""
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 7)), nmin=8, nmax=int(rng.choice([30, 150, 600])), min_tiny=True, periodic=True,
                        velocities=True, overlap=False)
    for ii in cat.idx:
        u = rng.random()
        if u < .12:
            cat.v[ii] = cat.v[ii[0]]
            ctx.ev("objects of equal velocities")
        elif u < .24:
            cat.v[ii, int(rng.integers(0, 3))] = float(rng.choice([0.0, 100.0]))
            ctx.ev("objects of planar velocities")
        elif u < .3:
            cat.v[ii] = np.outer(rng.normal(size=len(ii)), rng.normal(size=3))
        elif u < .36:
            cat.xyz[ii] = cat.xyz[ii[0]]
        elif u < .44:
            n = int(rng.integers(2, min(len(ii), 12) + 1))
            cat.xyz[ii[:n]] = cat.xyz[ii[0]]
    cfg = gen.katz(rng, nr=int(rng.choice([1, 2, 5, 12])))
    cfg["IT_MIN"] = int(rng.choice([4, 5, 10, 30]))
    center = str(rng.choice(["mode", "com"]))
    set_threads(int(rng.integers(1, 9)))
    ctx.describe(meta=cat.meta, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, center=center)
    with ctx.target("DensShapeProfsGadget"):
        o, cat = snap.simulation(rng, cat, d, center, typ=str(rng.choice(["dm", "gas", "stars"])))
        n = len(o.getIdxCat()[1])
    if not ctx.check(n == len(cat.idx), "all objects are found", got=n, expected=len(cat.idx)):
        return
    sel = rng.permutation(n)
    for nm in ("getShapeCatVelLocal", "getShapeCatVelGlobal", "getShapeCatLocal", "getShapeCatGlobal"):
        with ctx.target(nm):
            r = getattr(o, nm)(sel, cfg)
        valid(ctx, r, nm)
    gen.internal_units()


def valid(ctx, r, where):
    q, s, d = (np.atleast_1d(r[f]).astype(float) for f in ("q", "s", "d"))
    ax = {f: np.asarray(r[f], float).reshape(q.shape + (3,)) for f in ("minor", "inter", "major")}
    conv = np.asarray(r["is_conv"])
    ctx.check(conv.dtype == bool, where + ": convergence flag is boolean")
    conv = conv.reshape(q.shape)
    ok = ~np.isnan(q)
    ctx.check((conv == ok).all(), where + ": flag agrees with the ratios", conv=conv, q=q)
    allnan = np.isnan(q) & np.isnan(s) & np.isnan(d)
    anynan = np.isnan(q) | np.isnan(s) | np.isnan(d)
    for f in ax:
        allnan &= np.isnan(ax[f]).all(-1)
        anynan |= np.isnan(ax[f]).any(-1)
    ctx.check((allnan == anynan).all(), where + ": unclassified entries are unclassified in every field", q=q, s=s, d=d)
    ctx.ev("classified", int(ok.sum()))
    ctx.ev("unclassified", int((~ok).sum()))
    if not ok.any():
        return
    q, s, d = q[ok], s[ok], d[ok]
    ctx.check((s > 0).all() and (s <= q * (1 + 1e-9)).all() and (q <= 1 + 1e-9).all(), where + ": 0 < s <= q <= 1", q=q, s=s)
    ctx.check((d > 0).all() and np.isfinite(d).all(), where + ": positive radius", d=d)
    M = np.stack([ax[f][ok] for f in ("minor", "inter", "major")], -2)
    G = M @ np.swapaxes(M, -1, -2)
    dev = np.abs(G - np.eye(3)).max()
    ctx.check(dev < 1e-6, where + ": orthonormal axes", dev=float(dev))
    ctx.sig(where, tuple(np.round(q[:3], 1)), tuple(np.round(s[:3], 1)), int(ok.sum()))


def one(ctx, rng, i):
    cat = gen.catalogue(rng, many=.02, nmin=8, nmax=int(rng.choice([30, 150, 600])), min_tiny=True)
    if rng.random() < .1:
        cat.r200[rng.integers(0, len(cat.r200))] = 0.0
    cfg = gen.katz(rng, nr=int(rng.choice([1, 2, 5, 12, 40])))
    cfg["IT_MIN"] = int(rng.choice([4, 5, 10, 30]))
    if rng.random() < .15:      # axes along the coordinate axes
        j = rng.integers(0, len(cat.idx))
        pts = cat.xyz[cat.idx[j]]
        if not cat.L:
            c = pts.mean(0)
            u = np.abs(rng.normal(size=(len(pts) // 8 + 1, 3))) * [1, .7, .5] * .1 + 1e-3
            sg = np.array([[a, b, c_] for a in (1, -1) for b in (1, -1) for c_ in (1, -1)])
            x = (u[:, None] * sg[None]).reshape(-1, 3)[:len(pts)][:, rng.permutation(3)]
            n8 = len(pts) // 8 * 8
            if n8 >= 8:
                cat.xyz[cat.idx[j]] = c + x
                cat.m[cat.idx[j]] = 1.0
    if rng.random() < .12:      # a razor-thin disc, aligned with the box or not
        j = rng.integers(0, len(cat.idx))
        pts = cat.xyz[cat.idx[j]]
        if not cat.L:
            c = pts.mean(0)
            x = pts - c
            k = int(rng.integers(0, 3))
            x[:, k] = 0
            if rng.random() < .5:
                x = x @ gen.rotation(rng).T
            cat.xyz[cat.idx[j]] = c + x
        else:
            cat.xyz[cat.idx[j], int(rng.integers(0, 3))] = pts[0, 0]
        ctx.ev("thin discs")
    if rng.random() < .12:      # several particles at one place, which may become the centre
        j = rng.integers(0, len(cat.idx))
        ii = rng.permutation(cat.idx[j])
        n = int(rng.integers(2, min(len(ii), 12) + 1))
        cat.xyz[ii[:n]] = cat.xyz[ii[0]]
        ctx.ev("objects with coincident particles")
    center = str(rng.choice(["mode", "com"]))
    set_threads(int(rng.integers(1, 9)))
    ctx.describe(meta=cat.meta, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, center=center)
    obj, cat = gen.make(cat, os.getcwd(), center, 1, rng=rng)
    sel = np.arange(len(cat.idx))
    with ctx.target("getShapeCatLocal"):
        loc = obj.getShapeCatLocal(sel, cfg)
    with ctx.target("getShapeCatGlobal"):
        glo = obj.getShapeCatGlobal(sel, cfg)
    valid(ctx, loc, "local")
    valid(ctx, glo, "global")
    d = np.asarray(loc["d"], float)
    exp = cat.r200[:, None] * np.asarray(cfg["ROverR200"])[None]
    ctx.close(np.where(np.isnan(d), exp, d), exp, "local: radii are the requested ones", rtol=1e-6)
