"""C07: spherical binning: each shell's density is its mass over its volume, and every particle is counted exactly once."""
import os
import numpy as np
import gen, refs
from harness import Skip, set_threads


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(5000, 150000, until=.7):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(400, 20000, "edge"):
        try:
            edges(ctx, rng)
        except Skip:
            continue


def radii(rng):
    n = int(rng.choice([1, 2, 3, 5, 12, 40, 150]))
    k = rng.choice(["log", "lin", "irreg"])
    if k == "log":
        return np.logspace(rng.uniform(-2.5, -.5), rng.uniform(-.2, .4), n)
    if k == "lin":
        return np.linspace(rng.uniform(.01, .3), rng.uniform(.6, 2), n)
    return np.sort(rng.uniform(.01, 1.6, n)) + np.arange(n) * 1e-4


def one(ctx, rng, i):
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 10)), nmin=6, nmax=int(rng.choice([30, 200, 3000], p=[.3, .5, .2])), min_tiny=True)
    center = str(rng.choice(["mode", "com"]))
    R = radii(rng)
    th = int(rng.integers(1, 9))
    set_threads(th)
    obj, cat = gen.make(cat, os.getcwd(), center, 1, rng=rng)
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    ctx.describe(meta=cat.meta, center=center, sel=sel, form=cat.form, R=R, threads=th)
    with ctx.target("estDensProfs"):
        dens = np.asarray(obj.estDensProfs(R.tolist() if rng.random() < .3 else R, sel.tolist() if rng.random() < .5 else sel, True, True))
    if not ctx.check(dens.shape == (len(sel), len(R)), "one profile per selected object", shape=dens.shape):
        return
    for k, o in enumerate(sel):
        ii = np.asarray(cat.idx[o], int)
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb0 = refs.centre(x, m, center, 1000)
        if amb0:
            ctx.undec("centre hinges on rounding")
            continue
        ref, amb = refs.sph_density(x - c, m, cat.r200[o], R)
        ok = ~amb
        ctx.undec("particle on a shell edge", int(amb.sum()))
        e = refs.sph_edges(R) * cat.r200[o]
        # volumes of narrow shells lose digits to the single precision radius
        tol = 1e-6 * (1 + (e[1:] / np.diff(e)))
        ctx.check((np.abs(dens[k] - ref)[ok] <= (tol * np.abs(ref))[ok]).all(), "shell density is mass over volume", got=dens[k][ok], ref=ref[ok], obj=int(o), n=len(ii))
        r = np.sqrt(((x - c) ** 2).sum(1))
        inside = m[(r < e[-1]) & (r >= e[0])].sum()     # e[0] is 1e-8 of the virial radius
        tot = (dens[k] * (refs.volume(e[1:]) - refs.volume(e[:-1]))).sum()
        if not amb[-1] and not amb[0]:
            ctx.check(abs(tot - inside) <= 1e-6 * inside + (tol * ref * np.diff(refs.volume(e))).sum(), "mass within the outermost radius is conserved", got=tot, ref=inside, obj=int(o))
        ctx.ev("empty shells", int((ref == 0).sum()))
        ctx.ev("filled shells", int((ref > 0).sum()))
        ctx.sig(center, len(R), int(np.log2(len(ii))), int((ref > 0).sum()), cat.meta["straddle"][o])


def edges(ctx, rng):
    """Particles exactly on the edges between shells: counted once, in one of the two neighbours."""
    n = int(rng.integers(2, 8))
    R = np.arange(1, n + 1) * .25            # edges at exactly representable radii
    e = refs.sph_edges(R)
    r200 = float(2.0 ** rng.integers(-3, 3))
    k = int(rng.integers(2, 12))
    rad = rng.choice(e[1:-1], k) * r200
    ax = rng.integers(0, 3, k)
    x = np.zeros((k, 3))
    x[np.arange(k), ax] = rad
    m = rng.choice([1.0, 2.0, .5], k)
    # pairs of particles left and right of the centre keep the centre of mass at the origin
    x, m = np.vstack([x, -x]), np.append(m, m)
    ctx.describe(R=R, r200=r200, rad=rad)
    import cosmic_profiles as cp
    with ctx.target("estDensProfs"):
        o = cp.DensShapeProfs(x, m, [np.arange(len(x), dtype=np.int32)], r200, 0.0, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER="com")
        c = o.getMassesCenters([0])["centre"][0]
        if np.abs(c).max() != 0:
            ctx.undec("centre not exact")
            return
        dens = np.asarray(o.estDensProfs(R, [0], True, True))[0]
    vol = refs.volume(e[1:] * r200) - refs.volume(e[:-1] * r200)
    ctx.close((dens * vol).sum(), m.sum(), "particles on inner shell edges are counted once", rtol=1e-4, dens=dens, vol=vol)
    ctx.sig("edge", n, k, r200)
