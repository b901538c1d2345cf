"""C03: shapes and profiles transform as the physics does under rotation, translation, scaling and relabelling."""
import os, shutil
from types import SimpleNamespace
import numpy as np
import gen, refs, snap
from harness import Skip, set_threads, load


def measure(ctx, cat, cfg, center, R, what):
    import cosmic_profiles as cp
    sel = np.arange(len(cat.idx))
    with ctx.target(what):
        o = cp.DensShapeProfs(cat.xyz, cat.m, [np.int32(i) for i in cat.idx], cat.r200, cat.L, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER=center)
        out = SimpleNamespace(loc=o.getShapeCatLocal(sel, cfg), glo=o.getShapeCatGlobal(sel, cfg), cen=o.getMassesCenters(sel),
                              sph=o.estDensProfs(R, sel, True, True), ker=o.estDensProfs(R, sel, False, True))
        return out


def hinges(cat, cfg, center, R, near=1e-8):
    """Which (object, radius) results could legitimately differ because a particle sits on a boundary."""
    nr = len(cfg["ROverR200"])
    n = len(cat.idx)
    a_loc, a_glo, a_cen, gap_l, gap_g = np.zeros((n, nr), bool), np.zeros(n, bool), np.zeros(n, bool), np.zeros((n, nr)), np.zeros(n)
    a_sph = np.zeros((n, len(R)), bool)
    for k, ii in enumerate(cat.idx):
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb = refs.centre(x, m, center)
        # a rotated object has another extent, hence other shrinking-sphere radii: only com is rotation invariant
        c2, amb2 = refs.centre(x, m, center, 1000)
        a_cen[k] = amb or amb2
        _, a_sph[k] = refs.sph_density(x - c2, m, cat.r200[k], R, near=1e-6)
        kw = dict(reduced=cfg["REDUCED"], tol=cfg["IT_TOL"], wall=cfg["IT_WALL"], itmin=cfg["IT_MIN"], near=near)
        for j, Rj in enumerate(cfg["ROverR200"]):
            d = cat.r200[k] * Rj
            delta = None if not cfg["SHELL_BASED"] else (d if j == 0 else cat.r200[k] * (Rj - cfg["ROverR200"][j - 1]))
            r = refs.robust_katz(x - c, m, d, delta, **kw)
            a_loc[k, j] = r["amb"] or amb or r["ok"] is None
            gap_l[k, j] = r.get("gap", 0)
        r = refs.robust_katz(x - c, m, cat.r200[k] + 6, None, **kw)
        a_glo[k] = r["amb"] or amb or r["ok"] is None
        gap_g[k] = r.get("gap", 0)
    return a_loc, a_glo, a_cen, a_sph, gap_l, gap_g


def run(ctx):
    gen.internal_units()
    for i, rng in ctx.cases(1400, 40000, until=.75):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(300, 10000, "vel"):
        d = os.path.join(os.getcwd(), "vel%s_%d" % (ctx.case, ctx.seed))
        try:
            velocities(ctx, rng, i, d)
        except Skip:
            continue
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ctx, rng, i):
    kind = ["rotate", "translate", "mass", "length", "permute", "swapaxes", "mirror", "dupmass"][i % 8]
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.integers(1, 4)), nmin=60, nmax=int(rng.choice([150, 600, 3000], p=[.5, .46, .04])), periodic=False)
    center = "com" if kind in ("rotate",) else str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng, nr=int(rng.integers(1, 7)))
    R = np.sort(rng.uniform(.05, 1.2, int(rng.integers(1, 9)))) + np.arange(1) * 0
    set_threads(int(rng.integers(1, 9)))
    ctx.describe(kind=kind, meta=cat.meta, center=center, R=R, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    new = SimpleNamespace(**vars(cat))
    rot, off, lam, mu = np.eye(3), np.zeros(3), 1.0, 1.0
    perm = np.arange(len(cat.idx))
    if kind == "rotate":
        rot = gen.rotation(rng)
    elif kind == "swapaxes":
        rot = np.eye(3)[rng.permutation(3)]
    elif kind == "mirror":
        rot = np.diag(rng.choice([-1.0, 1.0], 3))
    elif kind == "translate":
        off = rng.uniform(-1, 1, 3) * 10 * np.abs(cat.xyz).max()
    elif kind == "mass":
        mu = float(10 ** rng.uniform(-10, 6))
    elif kind == "length":
        # the shrinking sphere of a mode centre starts at a fixed radius and shrinks by this factor
        # (from objects of a few parsecs to ones larger than a survey)
        wide = rng.random() < .5
        lam = float(10 ** (rng.uniform(-6, 3) if wide else rng.uniform(-1.5, 1.5))) if center == "com" else .83 ** int(rng.integers(-12, 60 if wide else 13))
    new.xyz = cat.xyz @ rot.T * lam + off
    new.m = cat.m * mu
    new.r200 = cat.r200 * lam
    new.idx = cat.idx
    if kind == "permute":       # particles in the box, particles in the object, objects in the catalogue
        p = rng.permutation(len(cat.m))
        inv = np.argsort(p)
        new.xyz, new.m = cat.xyz[p], cat.m[p]
        perm = rng.permutation(len(cat.idx))
        new.idx = [rng.permutation(inv[cat.idx[j]]) for j in perm]
        new.r200 = cat.r200[perm]
    elif kind == "dupmass":     # a particle split in two halves at the same place
        pk = int(rng.integers(0, len(cat.m)))
        new.xyz = np.vstack([cat.xyz, cat.xyz[pk]])
        new.m = np.append(cat.m, cat.m[pk] / 2)
        new.m[pk] /= 2
        new.idx = [np.append(ii, len(cat.m)) if pk in ii else ii for ii in cat.idx]
        center = "com"
    A = measure(ctx, cat, cfg, center, R, "measuring")
    B = measure(ctx, new, cfg, center, R, "measuring the transformed catalogue")
    al, ag, ac, asph, gl, gg = hinges(cat, cfg, center, R)
    bl, bg, bc, bsph, hl, hg = hinges(new, cfg, center, R)
    al, ag, ac, asph, gl, gg = al[perm] | bl, ag[perm] | bg, ac[perm] | bc, asph[perm] | bsph, np.minimum(gl[perm], hl), np.minimum(gg[perm], hg)
    ctx.undec("hinges on rounding", int(al.sum() + ag.sum() + asph.sum()))
    if kind == "dupmass":       # the smallest number of particles is counted, not weighed
        al |= cfg["IT_MIN"] > 5
        ag |= cfg["IT_MIN"] > 5
    scale = np.abs(cat.xyz).max() * lam + np.abs(off).max()
    rt = 1e-6
    for nm, a, b, amb, gap in (("local", A.loc, B.loc, al, gl), ("global", A.glo, B.glo, ag, gg)):
        if nm == "global" and kind == "length":
            continue        # the outermost radius includes a fixed margin, by design
        for f in ("q", "s"):
            x, y = np.asarray(a[f], float)[perm][~amb], np.asarray(b[f], float)[~amb]
            ctx.close(y, x, kind + ": " + nm + " ratios are unchanged", rtol=rt)
        x, y = np.asarray(a["d"], float)[perm][~amb], np.asarray(b["d"], float)[~amb]
        if nm == "local":
            ctx.close(y, x * lam, kind + ": radii scale", rtol=rt)
        ok = ~amb & (gap > 1e-3) & ~np.isnan(np.asarray(a["q"], float)[perm])
        for f in ("minor", "inter", "major"):
            x, y = np.asarray(a[f], float)[perm][ok] @ rot.T, np.asarray(b[f], float)[ok]
            dots = np.abs((x * y).sum(-1))
            if dots.size:
                ctx.check((np.abs(dots - 1) < 1e-5).all(), kind + ": axes co-rotate", worst=float(dots.min()), level=nm, axis=f)
    oc = ~ac
    ctx.close(B.cen["mass"], A.cen["mass"][perm] * mu, kind + ": total masses", rtol=1e-9)
    ctx.close(B.cen["centre"][oc], (A.cen["centre"][perm] @ rot.T * lam + off)[oc], kind + ": centres follow", rtol=0, atol=1e-6 * scale)
    okc = np.repeat(oc[:, None], len(R), 1) & ~asph
    x, y = A.sph[perm][okc] * mu / lam ** 3, B.sph[okc]
    ctx.close(y, x, kind + ": binned densities", rtol=3e-5, atol=1e-12 * (np.abs(x).max() if x.size else 0))
    if kind != "translate":     # kernel widths are evaluated in single precision
        x, y = A.ker[perm][oc] * mu / lam ** 3, B.ker[oc]
        ctx.close(y, x, kind + ": kernel densities", rtol=5e-3, atol=1e-5 * (np.abs(x).max() if x.size else 0))
    ctx.sig(kind, cfg["REDUCED"], cfg["SHELL_BASED"], center, len(cat.idx), tuple(np.round(np.asarray(A.glo["q"], float), 1)))
    ctx.ev("transformed catalogues")


def velocity_shapes(ctx, rng, cat, d, center, cfg):
    """Velocity shapes of the catalogue stored as a simulation, and which of them hinge on rounding."""
    c14 = load("c14")
    with ctx.target("DensShapeProfsGadget"):
        o, cat = snap.simulation(rng, cat, d, center)
        n = len(o.getIdxCat()[1])
    if not ctx.check(n == len(cat.idx), "all objects are found", got=n, expected=len(cat.idx)):
        raise Skip()
    sel = np.arange(n)
    with ctx.target("velocity shapes"):
        loc, glo = o.getShapeCatVelLocal(sel, cfg), o.getShapeCatVelGlobal(sel, cfg)
    nr = len(cfg["ROverR200"])
    al, ag, gl, gg = np.zeros((n, nr), bool), np.zeros(n, bool), np.zeros((n, nr)), np.zeros(n)
    for k, ii in enumerate(cat.idx):
        x, m, v = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii], cat.v[ii]
        c, amb = refs.centre(x, m, center)
        x, vb = x - c, refs.com(v, m)
        kw = dict(reduced=cfg["REDUCED"], tol=cfg["IT_TOL"], wall=cfg["IT_WALL"], itmin=cfg["IT_MIN"], near=1e-6, near_err=1e-3)
        for j, R in enumerate(cfg["ROverR200"]):
            dd = cat.r200[k] * R
            delta = None if not cfg["SHELL_BASED"] else (dd if j == 0 else cat.r200[k] * (R - cfg["ROverR200"][j - 1]))
            r = c14.judge(rng, x, m, dd, delta, v - vb, vb, kw)
            al[k, j], gl[k, j] = r["amb"] or amb or r["ok"] is None, r.get("gap", 0)
        r = c14.judge(rng, x, m, cat.r200[k] + 6, None, v - vb, vb, kw)
        ag[k], gg[k] = r["amb"] or amb or r["ok"] is None, r.get("gap", 0)
    return SimpleNamespace(loc=loc, glo=glo, al=al, ag=ag, gl=gl, gg=gg)


def compare_vel(ctx, A, B, rot, kind, rt=2e-4):
    al, ag, gl, gg = A.al | B.al, A.ag | B.ag, np.minimum(A.gl, B.gl), np.minimum(A.gg, B.gg)
    ctx.undec("velocity shapes that hinge on rounding", int(al.sum() + ag.sum()))
    for nm, a, b, amb, gap in (("velocity local", A.loc, B.loc, al, gl), ("velocity global", A.glo, B.glo, ag, gg)):
        for f in ("q", "s"):
            ctx.close(np.asarray(b[f], float)[~amb], np.asarray(a[f], float)[~amb], kind + ": " + nm + " ratios are unchanged", rtol=rt)
        ok = ~amb & (gap > 2e-2) & ~np.isnan(np.asarray(a["q"], float))
        for f in ("minor", "inter", "major"):
            x, y = np.asarray(a[f], float)[ok] @ rot.T, np.asarray(b[f], float)[ok]
            dots = np.abs((x * y).sum(-1))
            if dots.size:
                ctx.check((np.abs(dots - 1) < 1e-4).all(), kind + ": " + nm + " axes co-rotate", worst=float(dots.min()), axis=f)
        ctx.ev("velocity shapes compared", int(ok.sum()))


def velocities(ctx, rng, i, d):
    kind = ["boost", "rotate", "faster", "mass", "mirror", "length"][i % 6]
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=60, nmax=int(rng.choice([150, 600])), periodic=False, velocities=True, overlap=False)
    c0 = (cat.xyz.max(0) + cat.xyz.min(0)) / 2
    ext = np.abs(cat.xyz - c0).max()
    cat.L = 12 * ext
    mid = np.full(3, cat.L / 2)
    rel = cat.xyz - c0
    cat.xyz = rel + mid
    center = "com" if kind in ("rotate", "length") else str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng, nr=int(rng.integers(1, 7)))
    set_threads(int(rng.integers(1, 9)))
    ctx.describe(kind="velocity " + kind, meta=cat.meta, center=center, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    new, rot = SimpleNamespace(**vars(cat)), np.eye(3)
    if kind == "boost":         # the whole simulation moves
        new.v = cat.v + rng.normal(size=3) * 10 ** rng.uniform(1, 3.5)
    elif kind == "faster":
        new.v = cat.v * 10 ** rng.uniform(-3, 2)
    elif kind == "mass":
        new.m = cat.m * 10 ** rng.uniform(-4, 4)
    elif kind == "length":
        lam = 10 ** rng.uniform(-3, 3)
        new.xyz, new.L, new.r200 = cat.xyz * lam, cat.L * lam, cat.r200 * lam
    else:
        rot = gen.rotation(rng) if kind == "rotate" else np.diag(rng.choice([-1.0, 1.0], 3))
        new.xyz, new.v = rel @ rot.T + mid, cat.v @ rot.T
    A = velocity_shapes(ctx, rng, cat, os.path.join(d, "a"), center, cfg)
    B = velocity_shapes(ctx, rng, new, os.path.join(d, "b"), center, cfg)
    if kind == "length":
        B.ag[:] = True
    compare_vel(ctx, A, B, rot, kind)
    ctx.sig("velocity " + kind, cfg["REDUCED"], cfg["SHELL_BASED"], center, tuple(np.round(np.asarray(A.glo["q"], float), 1)))
    ctx.ev("transformed simulations")
