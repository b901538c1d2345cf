"""C09: kernel-based densities are the documented kernel sum."""
import os
import numpy as np
import gen, refs
from harness import Skip, set_threads


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(3600, 60000):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(240, 4000, "core"):
        core(ctx, rng)


def core(ctx, rng):
    """Particles exactly at the centre have no extent: they count at no other radius, and do no harm."""
    from cosmic_profiles import DensShapeProfs
    k = int(rng.integers(1, 4))
    L = float(rng.choice([0, 64]))
    center = str(rng.choice(["mode", "com"]))
    x, m, cat = [], [], []
    for o in range(k):
        n = int(rng.integers(10, 60))
        y = rng.integers(-512, 513, (n, 3)) / 512.0
        y = y[(y ** 2).sum(1) > 0]
        y = np.vstack([y, -y])
        w = np.tile(rng.integers(1, 9, len(y) // 2) / 8.0, 2)
        bare = o and rng.random() < .3
        nc = 0 if bare else int(rng.choice([5, 9])) if center == "mode" else int(rng.choice([1, 1, 4]))
        if nc:
            w *= 1 / 64.0
        y, w = np.vstack([y, np.zeros((nc, 3))]), np.concatenate([w, np.full(nc, 8.0)])
        p = rng.permutation(len(y))
        cat.append(np.arange(len(y)) + sum(map(len, cat)))
        x.append(y[p] + rng.integers(2, 62, 3))
        m.append(w[p])
    xs, ms, r200 = np.vstack(x), np.concatenate(m), rng.uniform(.8, 1.5, k)
    if L:
        sh = rng.integers(0, 64, 3)
        xs = (xs + sh) % L
    R = np.sort(rng.uniform(.02, 1.3, int(rng.integers(1, 6))))
    th = int(rng.integers(1, 9))
    set_threads(th)
    ctx.describe(objects=k, center=center, box=L, R=R, threads=th, core=[int((y == y.mean(0)).all(1).sum()) for y in x])
    with ctx.target("DensShapeProfs, estDensProfs"):
        o = DensShapeProfs(xs, ms, [list(map(int, c)) for c in cat], r200, L, "core", os.getcwd() + "/viz", os.getcwd() + "/cat", MIN_NUMBER_PTCS=1, CENTER=center)
        dens = np.asarray(o.estDensProfs(R, list(range(k)), False, True))
    for j in range(k):
        y = refs.unwrap(xs[cat[j]], L)
        c, amb = refs.centre(y, ms[cat[j]], center, 1000)
        r = np.sqrt(((y - c) ** 2).sum(1))
        away = r > 1e-9
        if amb or (away & (r < 1e-5)).any():
            ctx.undec("centre hinges on rounding")
            continue
        ref = refs.kernel_density((y - c)[away], ms[cat[j]][away], r200[j], R)
        lo, hi = (refs.kernel_density((y - c)[away] * f, ms[cat[j]][away], r200[j], R) for f in (1 - 4e-7, 1 + 4e-7))
        tol = 1e-3 * ref + 5 * (np.abs(lo - ref) + np.abs(hi - ref)) + 1e-6 * ref.max() + 1e-9 * ms.sum()
        ctx.check((np.abs(dens[j] - ref) <= tol).all(), "kernel density with particles at the centre", got=dens[j], ref=ref, obj=j, at_centre=int((~away).sum()))
        ctx.ev("particles exactly at the centre", int((r == 0).sum()))
        ctx.sig("core", center, L, int((r == 0).sum()), len(R))


def one(ctx, rng, i):
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 6)), nmin=20, nmax=int(rng.choice([60, 300, 1500], p=[.4, .5, .1])))
    center = str(rng.choice(["mode", "com"]))
    n = int(rng.choice([1, 2, 3, 8, 20]))
    R = np.sort(rng.uniform(.02, 1.3, n)) + np.arange(n) * 1e-3
    if rng.random() < .4:       # also well within the kernels of the innermost particles
        R = np.sort(10 ** rng.uniform(-4, .1, n)) * (1 + 1e-6 * np.arange(n))
        if rng.random() < .7:
            for ii in cat.idx:
                ii = np.asarray(ii)
                pull = ii[rng.random(len(ii)) < .5]
                cat.xyz[pull] = cat.xyz[ii[0]] + (refs.unwrap(np.vstack([cat.xyz[ii[0]], cat.xyz[pull]]), cat.L)[1:] - cat.xyz[ii[0]]) * 10 ** rng.uniform(-3, -1)
            if cat.L > 0:
                cat.xyz %= cat.L
    th = int(rng.integers(1, 9))
    set_threads(th)
    obj, cat = gen.make(cat, os.getcwd(), center, 1, rng=rng)
    for ii in cat.idx:
        ii = np.asarray(ii, int)
        y = refs.unwrap(cat.xyz[ii], cat.L)
        r = np.sqrt(((y - refs.centre(y, cat.m[ii], center, 1000)[0]) ** 2).sum(1))
        if r.min() < 1e-6 * r.max():
            ctx.undec("centre lies on a particle")
            raise Skip()
    k = len(cat.idx)
    sel = rng.permutation(k)[:int(rng.integers(1, k + 1))]
    ctx.describe(meta=cat.meta, center=center, sel=sel, form=cat.form, R=R, threads=th)
    with ctx.target("estDensProfs"):
        dens = np.asarray(obj.estDensProfs(R, sel.tolist() if rng.random() < .5 else sel, False, True))
    if not ctx.check(dens.shape == (len(sel), len(R)), "one profile per selected object", shape=dens.shape):
        return
    for k, o in enumerate(sel):
        ii = np.asarray(cat.idx[o], int)
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb0 = refs.centre(x, m, center, 1000)
        r = np.sqrt(((x - c) ** 2).sum(1))
        if amb0 or r.min() < 1e-6 * r.max():
            ctx.undec("centre hinges on rounding, or lies on a particle")
            continue
        ref = refs.kernel_density(x - c, m, cat.r200[o], R)
        # single precision distances inside narrow kernels: bound the error by moving every particle by one rounding
        lo = refs.kernel_density((x - c) * (1 - 4e-7), m, cat.r200[o], R)
        hi = refs.kernel_density((x - c) * (1 + 4e-7), m, cat.r200[o], R)
        tol = 1e-4 * ref + 3 * (np.abs(lo - ref) + np.abs(hi - ref)) + 1e-7 * ref.max() + 1e-12 * m.sum() / cat.r200[o] ** 3
        h = .005 * cat.r200[o] * np.sqrt(r / (.1 * cat.r200[o]))
        for j, Rj in enumerate(R * cat.r200[o]):   # second order part
            z = (r - Rj) / h
            w = m / h ** 3 * np.exp(-z * z / 2) * (h * h / (Rj * r)) / (2 * (2 * np.pi) ** 1.5)
            tol[j] += (w * 1e-6 * z * z).sum()      # the two Gaussians cancel where r and R are small
            if np.any(w > 0) and Rj < h[np.argmax(w)]:
                ctx.ev("radii within a kernel of the centre")
            tol[j] += (w * np.minimum(1, np.abs(z) * (np.maximum(r, Rj) / h) * 1e-6)).sum()
        ctx.check((np.abs(dens[k] - ref) <= tol).all(), "kernel density", got=dens[k], ref=ref, tol=tol, obj=int(o))
        ctx.ev("profiles")
        ctx.sig(center, len(R), int(np.log2(len(ii))), round(float(np.log10(ref.max() + 1e-30)), 0))
