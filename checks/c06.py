"""C06: centres and masses are those of exactly the particles that belong to the object."""
import os
import shutil
import numpy as np
import gen, refs
from harness import Skip, set_threads


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(6000, 150000, until=.9):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(300, 6000, "helpers"):
        try:
            helpers(ctx, rng)
        except Skip:
            continue


def one(ctx, rng, i):
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 8)), nmin=6, nmax=int(rng.choice([30, 150, 900, 5000], p=[.34, .33, .31, .02])), min_tiny=True)
    center = str(rng.choice(["mode", "com"]))
    if rng.random() < .08:      # several particles at one place
        ii = cat.idx[rng.integers(0, len(cat.idx))]
        cat.xyz[ii[:int(rng.integers(4, 8))]] = cat.xyz[ii[0]]
        ctx.ev("objects with coincident particles")
    members = np.concatenate([np.asarray(ii) for ii in cat.idx])
    if cat.L and rng.random() < .12 and len(np.unique(members)) == len(members):
        lattice(cat, rng)
        ctx.ev("objects on a lattice, centres on the faces of the box")
    set_threads(int(rng.integers(1, 9)))
    obj, cat = gen.make(cat, os.getcwd(), center, 1, rng=rng)
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    ctx.describe(meta=cat.meta, center=center, sel=sel, form=cat.form)
    with ctx.target("getMassesCenters"):
        r = obj.getMassesCenters(sel.tolist() if rng.random() < .5 else sel)
    for k, o in enumerate(sel):
        ii = np.asarray(cat.idx[o], int)
        x = refs.unwrap(cat.xyz[ii], cat.L)
        m = cat.m[ii]
        c, amb = refs.centre(x, m, center, 1000)
        ctx.close(r["mass"][k], m.sum(), "mass is the sum over the members", rtol=1e-9, obj=int(o))
        if amb:
            ctx.undec("centre hinges on rounding")
            continue
        if cat.L:
            d = refs.wrap_diff(r["centre"][k], c, cat.L)
            ctx.check(((r["centre"][k] >= -1e-9 * cat.L) & (r["centre"][k] <= cat.L * (1 + 1e-9))).all(), "centre lies in the box",
                      centre=r["centre"][k], L=cat.L)
        else:
            d = r["centre"][k] - c
        ext = np.abs(x - c).max()
        sc = max(np.abs(x).max(), ext)
        ctx.check((np.abs(d) <= 1e-6 * ext + 1e-12 * sc).all(), center + " centre of the members", got=r["centre"][k], ref=c, L=cat.L, obj=int(o))
        # a centre is inside its object
        lo, hi = x.min(0) - 1e-9 * sc, x.max(0) + 1e-9 * sc
        ctx.sig(center, len(ii), round(float(np.log10(ext)), 1), cat.meta["straddle"][o])
    ctx.ev("objects", len(sel))
    if rng.random() < .12:
        in_shapes(ctx, rng, obj, cat, sel, center)


def in_shapes(ctx, rng, obj, cat, sel, center):
    """The centres and masses that go with shapes, as dumped."""
    cfg = gen.katz(rng, nr=1)
    kind = str(rng.choice(["local", "global"]))
    d = os.path.join(os.getcwd(), "cat")
    try:
        with ctx.target("dumpShapeCat"):
            (obj.dumpShapeCatLocal if kind == "local" else obj.dumpShapeCatGlobal)(sel, cfg)
        f = [n for n in os.listdir(d) if n.startswith(("centers_", "m_"))]
        if not ctx.check(len(f) == 2, "centres and masses are dumped", files=sorted(os.listdir(d))):
            return
        t = {n[0]: np.loadtxt(os.path.join(d, n), ndmin=2) for n in f}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.ev("centres of shapes", len(sel))
    for k, o in enumerate(sel):
        ii = np.asarray(cat.idx[o], int)
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb = refs.centre(x, m, center)
        ctx.close(t["m"].ravel()[k], m.sum(), "mass that goes with a shape", rtol=1e-6, obj=int(o))
        got = t["c"].reshape(-1, 3)[k]
        if cat.L:
            ctx.check(((got >= -1e-6 * cat.L) & (got <= cat.L * (1 + 1e-6))).all(), "centre that goes with a shape lies in the box", centre=got, L=cat.L)
        if amb:
            ctx.undec("centre hinges on rounding")
            continue
        dd = refs.wrap_diff(got, c, cat.L) if cat.L else got - c
        ctx.check((np.abs(dd) <= 1e-6 * (np.abs(got) + np.abs(x - c).max())).all(), "centre that goes with a shape", got=got, ref=c, L=cat.L, obj=int(o))


def lattice(cat, rng):
    """Moves the objects such that sums are exact and centres of mass fall on faces, edges and corners of the box."""
    cat.L = 2. ** np.round(np.log2(cat.L))
    for k, ii in enumerate(cat.idx):
        ii = np.asarray(ii, int)
        c = rng.choice([0., 0., .5, 63 / 64, 1 / 64], 3)
        d = rng.integers(-8, 9, (len(ii), 3)) / 256.
        d[1::2] = -d[:len(d[1::2]) * 2:2]
        if len(ii) % 2:
            d[-1] = 0.
        cat.xyz[ii] = np.mod(c + d, 1.) * cat.L
        cat.m[ii] = cat.m[ii[0]]


def helpers(ctx, rng):
    """The public centre/period helpers, which users call for their own catalogues."""
    from cosmic_profiles.common import python_routines as pr
    n = int(rng.integers(6, 80))
    L = float(10 ** rng.uniform(-1, 2))
    nobj = int(rng.integers(1, 6))
    cs = rng.uniform(-.49, 1.49, (nobj, 3)) * L
    if rng.random() < .5:       # on faces, edges and corners
        hit = rng.random((nobj, 3)) < .5
        cs[hit] = rng.choice([0., L, -0., np.nextafter(L, 0), -L / 4], hit.sum())
    ctx.describe(L=L, centres=cs)
    if hasattr(pr, "recentreObject"):
        with ctx.target("recentreObject"):
            out = np.asarray(pr.recentreObject(cs.copy(), L))
        ctx.check(((out >= 0) & (out <= L)).all(), "recentred into the box", got=out, L=L)
        ctx.check((np.abs(refs.wrap_diff(out, cs, L)) < 1e-9 * L).all(), "recentring shifts by whole boxes", got=out, given=cs, L=L)
        out = np.asarray(pr.recentreObject(cs.copy(), 0.0))
        ctx.close(out, cs, "recentring without a box changes nothing", rtol=0)
    ext = rng.uniform(.02, .48) * L
    x = (rng.random((n, 3)) - .5) * ext
    m = rng.uniform(.2, 2, n)
    c0 = rng.uniform(0, L, 3)
    y = np.mod(x + c0, L)
    with ctx.target("respectPBCNoRef"):
        z = np.asarray(pr.respectPBCNoRef(y.copy(), L))
    ctx.check((z.max(0) - z.min(0) <= ext * (1 + 1e-9)).all(), "object made contiguous", extent=z.max(0) - z.min(0), L=L, ext=ext)
    ctx.check((np.abs(refs.wrap_diff(z, y, L)) < 1e-9 * L).all(), "translations are by whole boxes", L=L)
    with ctx.target("respectPBCNoRef"):
        z = np.asarray(pr.respectPBCNoRef(y.copy(), 0.0))
    ctx.close(z, y, "no box, no translation", rtol=0)
    with ctx.target("calcCoM/calcMode"):
        a, b = np.asarray(pr.calcCoM(x, m)), np.asarray(pr.calcMode(x, m, 1000))
    ctx.check((np.abs(a - refs.com(x, m)) < 1e-8 * ext).all(), "centre of mass helper", got=a, ref=refs.com(x, m))
    r, amb = refs.mode(x, m, 1000)
    if not amb:
        ctx.check((np.abs(b - r) < 1e-8 * ext).all(), "mode helper", got=b, ref=r)
    from cosmic_profiles.common import cosmo_tools as ct
    if hasattr(ct, "respectPBC"):
        with ctx.target("respectPBC"):
            z = np.asarray(ct.respectPBC(y.copy(), L))
        ctx.check((z.max(0) - z.min(0) <= ext * (1 + 1e-9)).all(), "object made contiguous", extent=z.max(0) - z.min(0), L=L, ext=ext)
        ctx.check((np.abs(refs.wrap_diff(z, y, L)) < 1e-9 * L).all(), "translations are by whole boxes", L=L)
    if hasattr(ct, "calcMode"):
        with ctx.target("calcMode"):
            b = np.asarray(ct.calcMode(x, m, 1000))
        if not amb:
            ctx.check((np.abs(b - r) < 1e-8 * ext).all(), "mode helper", got=b, ref=r)
    ctx.sig("helpers", n, round(ext / L, 1))
