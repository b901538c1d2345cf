"""C04: a periodic box has no edges: moving an object across them changes nothing but its centre."""
import os, shutil
import numpy as np
from types import SimpleNamespace
import gen, refs
from harness import Skip, set_threads, load


c03 = load("c03")


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(1400, 40000, until=.75):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(300, 8000, "vel"):
        d = os.path.join(os.getcwd(), "vel%s_%d" % (ctx.case, ctx.seed))
        try:
            velocities(ctx, rng, i, d)
        except Skip:
            continue
        finally:
            shutil.rmtree(d, ignore_errors=True)


def velocities(ctx, rng, i, d):
    """A simulation whose objects are moved across the faces: velocity shapes are the same."""
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=60, nmax=int(rng.choice([150, 600])), periodic=True, velocities=True, overlap=False)
    center = str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng, nr=int(rng.integers(1, 7)))
    set_threads(int(rng.integers(1, 9)))
    new = SimpleNamespace(**vars(cat))
    off = rng.uniform(0, cat.L, 3)
    if i % 3 == 0:
        off = cat.L / 2 - refs.unwrap(cat.xyz[cat.idx[0]], cat.L).mean(0)
    elif i % 3 == 1:
        off[rng.permutation(3)[:2]] = 0
    new.xyz = np.mod(cat.xyz + off, cat.L)
    new.xyz[new.xyz >= cat.L] = 0.0
    ctx.describe(kind="simulation", meta=cat.meta, center=center, off=off, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    A = c03.velocity_shapes(ctx, rng, cat, os.path.join(d, "a"), center, cfg)
    B = c03.velocity_shapes(ctx, rng, new, os.path.join(d, "b"), center, cfg)
    c03.compare_vel(ctx, A, B, np.eye(3), "moved simulation")
    ctx.sig("simulation", cfg["REDUCED"], cfg["SHELL_BASED"], center, tuple(np.round(np.asarray(A.glo["q"], float), 1)))
    ctx.ev("moved simulations")


def ell(ctx, cat, cfg, center, R):
    import cosmic_profiles as cp
    sel = np.arange(len(cat.idx))
    with ctx.target("ellipsoidal densities"):
        o = cp.DensShapeProfs(cat.xyz, cat.m, [np.int32(i) for i in cat.idx], cat.r200, cat.L, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER=center)
        return o.estDensProfs(R, sel, True, False, cfg)


def one(ctx, rng, i):
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 4)), nmin=60, nmax=int(rng.choice([150, 600, 3000], p=[.5, .46, .04])), periodic=True)
    kind = ["shift", "single axis", "to the middle", "no box"][i % 4]
    center = str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng, nr=int(rng.integers(1, 7)))
    R = np.sort(rng.uniform(.05, 1.2, int(rng.integers(1, 9))))
    set_threads(int(rng.integers(1, 9)))
    L = cat.L
    new = SimpleNamespace(**vars(cat))
    off = np.zeros(3)
    if kind == "shift":
        off = rng.uniform(0, L, 3)
    elif kind == "single axis":
        off[rng.integers(0, 3)] = rng.uniform(0, L)
    elif kind == "to the middle":
        off = L / 2 - refs.unwrap(cat.xyz[cat.idx[0]], L).mean(0)
    ctx.describe(kind=kind, meta=cat.meta, center=center, off=off, R=R, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    if kind == "no box":        # the same objects, made contiguous, without a box; one object at a time
        k = int(rng.integers(0, len(cat.idx)))
        cat.idx, cat.r200 = [cat.idx[k]], cat.r200[k:k + 1]
        new.idx, new.r200 = cat.idx, cat.r200
        new.xyz = cat.xyz.copy()
        new.xyz[cat.idx[0]] = refs.unwrap(cat.xyz[cat.idx[0]], L)
        new.L = 0.0
    else:
        new.xyz = np.mod(cat.xyz + off, L)
        new.xyz[new.xyz >= L] = 0.0
    if kind == "to the middle":
        k = 0
        cat.idx, cat.r200 = [cat.idx[k]], cat.r200[k:k + 1]
        new.idx, new.r200 = cat.idx, cat.r200
    A = c03.measure(ctx, cat, cfg, center, R, "measuring")
    B = c03.measure(ctx, new, cfg, center, R, "measuring after the move")
    al, ag, ac, asph, gl, gg = c03.hinges(cat, cfg, center, R)
    bl, bg, bc, bsph, hl, hg = c03.hinges(new, cfg, center, R)
    al, ag, ac, asph, gl, gg = al | bl, ag | bg, ac | bc, asph | bsph, np.minimum(gl, hl), np.minimum(gg, hg)
    ctx.undec("hinges on rounding", int(al.sum() + ag.sum() + asph.sum()))
    for nm, a, b, amb, gap in (("local", A.loc, B.loc, al, gl), ("global", A.glo, B.glo, ag, gg)):
        for f in ("q", "s", "d"):
            x, y = np.asarray(a[f], float)[~amb], np.asarray(b[f], float)[~amb]
            ctx.close(y, x, kind + ": " + nm + " shapes are unchanged", rtol=1e-6)
        ok = ~amb & (gap > 1e-3) & ~np.isnan(np.asarray(a["q"], float))
        for f in ("minor", "inter", "major"):
            dots = np.abs((np.asarray(a[f], float)[ok] * np.asarray(b[f], float)[ok]).sum(-1))
            if dots.size:
                ctx.check((np.abs(dots - 1) < 1e-5).all(), kind + ": axes are unchanged", worst=float(dots.min()), level=nm, axis=f)
    oc = ~ac
    ctx.close(B.cen["mass"], A.cen["mass"], kind + ": masses are unchanged", rtol=1e-9)
    d = refs.wrap_diff(B.cen["centre"][oc], A.cen["centre"][oc] + off, L)
    ctx.check((np.abs(d) < 1e-6 * L).all(), kind + ": centres move along", worst=float(np.abs(d).max()) if d.size else 0.)
    for c in (A, B):
        if c is B and not new.L:
            continue
        z = c.cen["centre"]
        ctx.check(((z >= -1e-9 * L) & (z <= L * (1 + 1e-9))).all(), "centres lie in the box", centre=z, L=L)
    okc = np.repeat(oc[:, None], len(R), 1) & ~asph
    x, y = A.sph[okc], B.sph[okc]
    ctx.close(y, x, kind + ": binned densities are unchanged", rtol=3e-5, atol=1e-12 * (np.abs(x).max() if x.size else 0))
    x, y = A.ker[oc], B.ker[oc]
    ctx.close(y, x, kind + ": kernel densities are unchanged", rtol=2e-2, atol=2e-4 * (np.abs(x).max() if x.size else 0))
    if len(R) >= 3 and not al.any() and oc.all() and len(cfg["ROverR200"]) > 1 and gl.min() > 1e-2 and not np.isnan(np.asarray(A.loc["q"], float)).any():
        x, y = ell(ctx, cat, cfg, center, R), ell(ctx, new, cfg, center, R)
        bad = np.abs(x - y) > 1e-5 * np.abs(x)
        bad |= np.isnan(x) != np.isnan(y)
        if bad.any():
            for k in range(len(cat.idx)):
                for c_, which in ((cat, "before"), (new, "after")):
                    xx = refs.unwrap(c_.xyz[c_.idx[k]], c_.L)
                    cc, _ = refs.centre(xx, c_.m[c_.idx[k]], center, 1000)
                    _, am = refs.ell_density(xx - cc, c_.m[c_.idx[k]], c_.r200[k], R, *(np.asarray(A.loc[f][k], float) for f in ("d", "q", "s", "major", "inter", "minor")))
                    bad[k] &= ~am
        ctx.check(not bad.any(), kind + ": ellipsoidal densities are unchanged", before=x, after=y)
    ctx.sig(kind, cfg["REDUCED"], cfg["SHELL_BASED"], center, tuple(cat.meta["straddle"]), tuple(np.round(np.asarray(A.glo["q"], float), 1)))
    ctx.ev("objects straddling %s faces" % cat.meta["straddle"][0])
    ctx.ev("moved catalogues")
