"""C08: ellipsoidal binning: density in shells between the interpolated ellipsoids of the object's own shape profile."""
import os
import numpy as np
import gen, refs
from harness import Skip, set_threads


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(2200, 100000, until=.85):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(40, 1500, "sph"):
        try:
            isotropic(ctx, rng)
        except Skip:
            continue


def one(ctx, rng, i):
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 7)), nmin=80, nmax=int(rng.choice([200, 900, 4000], p=[.4, .5, .1])))
    center = str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng, nr=int(rng.integers(2, 9)), IT_WALL=100, IT_MIN=5)
    cfg["SHELL_BASED"] = bool(rng.random() < .15)
    lo = rng.uniform(.15, .5)
    cfg["ROverR200"] = np.sort(rng.uniform(lo, 1.4, len(cfg["ROverR200"]))) + .02 * np.arange(len(cfg["ROverR200"]))
    nR = int(rng.choice([3, 4, 6, 12, 30]))
    R = cfg["ROverR200"].copy() if rng.random() < .3 and len(cfg["ROverR200"]) >= 3 else np.sort(rng.uniform(lo * .8, 1.5, nR)) + .005 * np.arange(nR)
    th = int(rng.integers(1, 9))
    set_threads(th)
    obj, cat = gen.make(cat, os.getcwd(), center, 1, rng=rng)
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    ctx.describe(meta=cat.meta, center=center, sel=sel, form=cat.form, R=R, threads=th, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    before = obj.getIdxCat()[0].copy()
    with ctx.target("getShapeCatLocal"):
        sh = obj.getShapeCatLocal(sel, cfg)
    with ctx.target("estDensProfs"):
        dens = np.asarray(obj.estDensProfs(R, sel.tolist() if rng.random() < .5 else sel, True, False, cfg))
    ctx.check((obj.getIdxCat()[0] == before).all(), "membership is left alone")
    if not ctx.check(dens.shape == (len(sel), len(R)), "one profile per selected object", shape=dens.shape):
        return
    for k, o in enumerate(sel):
        S = {f: np.asarray(sh[f][k], float) for f in ("d", "q", "s", "major", "inter", "minor")}
        if np.isnan(S["q"]).any():
            ctx.ev("profiles with unclassified radii")
            continue
        ii = np.asarray(cat.idx[o], int)
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb0 = refs.centre(x, m, center, 1000)
        if amb0:
            ctx.undec("centre hinges on rounding")
            continue
        ref, amb = refs.ell_density(x - c, m, cat.r200[o], R, **S)
        ok = ~amb
        ctx.undec("particle on a shell edge", int(amb.sum()))
        g, r = dens[k][ok], ref[ok]
        # ratio of volumes of narrow or strongly extrapolated shells
        e = refs.ell_edges(R) * cat.r200[o]
        v = refs.lin(S["d"], S["d"], e) * refs.lin(S["d"], S["d"] * S["q"], e) * refs.lin(S["d"], S["d"] * S["s"], e)
        tol = (1e-5 * (1 + np.abs(v[1:] / np.diff(v)) + np.abs(v[:-1] / np.diff(v))))[ok]
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - r) <= tol * np.abs(r)) | (np.isnan(g) & np.isnan(r)))
        ctx.check(not bad.any(), "ellipsoidal shell density", got=g, ref=r, obj=int(o), n=len(ii))
        ctx.ev("filled shells", int((~np.isnan(ref)).sum()))
        ctx.ev("empty shells", int(np.isnan(ref).sum()))
        ctx.sig(center, len(R), len(S["d"]), int(np.log2(len(ii))), int((~np.isnan(ref)).sum()), round(float(S["q"][-1]), 1), round(float(S["s"][-1]), 1))
    if i % 11 == 0:
        for bad in (R[:1], R[:2]):
            ctx.expect_raises(ValueError, lambda: obj.estDensProfs(bad, sel, True, False, cfg), "too few radii are rejected")


def isotropic(ctx, rng):
    """Ellipsoids with a known density: the profile along the major axis is recovered, unlike with spherical shells."""
    import cosmic_profiles as cp
    n = 30000
    u = rng.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    p = rng.uniform(.6, .9)
    qs = np.array([1, rng.uniform(.65, .8), rng.uniform(.4, .55)])
    x = (u * (rng.random(n) ** p)[:, None] * qs) @ gen.rotation(rng).T
    R = np.linspace(.25, .9, 6)
    ctx.describe(n=n, p=p, axes=qs)
    with ctx.target("estDensProfs"):
        o = cp.DensShapeProfs(x, np.ones(n), [np.arange(n, dtype=np.int32)], 1.0, 0.0, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER="com")
        cfg = dict(ROverR200=np.linspace(.2, .95, 6), IT_TOL=1e-3, IT_WALL=100, IT_MIN=10, REDUCED=False, SHELL_BASED=False)
        b = np.asarray(o.estDensProfs(R, [0], True, False, cfg))[0]
    e = refs.ell_edges(R)
    ref = n * np.diff(e ** (1 / p)) / (np.diff(refs.volume(e)) * qs.prod())
    ctx.check((np.abs(b / ref - 1)[2:] < .2).all(), "known ellipsoidal density is recovered", got=b, ref=ref)
    ctx.sig("known", round(p, 1), tuple(np.round(qs, 1)))
