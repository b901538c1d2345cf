"""C27: what is known about sampled halos is recovered through the whole package, within the noise of their particles."""
import os, shutil
import numpy as np
from types import SimpleNamespace
import gen, refs, snap
from harness import Skip, set_threads, load

c11 = load("c11")
EDGE = 1.25      # halos are sampled up to this multiple of their size
RD = np.logspace(-1, 0, 12)      # radii of density profiles
RK = np.array([.35, .6, .85, 1.0])


def run(ctx):
    tmp = os.getcwd()
    for i, rng in ctx.cases(200, 6000):
        d = os.path.join(tmp, "end%s_%d" % (ctx.case, ctx.seed))
        try:
            one(ctx, rng, d)
        except Skip:
            continue
        finally:
            gen.internal_units()
            shutil.rmtree(d, ignore_errors=True)


def rho(p, x):
    """Density over rho_s at x = r / r_s."""
    k = p["profile"]
    if k == "nfw":
        return 1 / (x * (1 + x) ** 2)
    if k == "hernquist":
        return 1 / (x * (1 + x) ** 3)
    if k == "einasto":
        return np.exp(-2 / p["alpha"] * (x ** p["alpha"] - 1))
    return x ** -p["gamma"] * (1 + x ** p["alpha"]) ** ((p["gamma"] - p["beta"]) / p["alpha"])


def halo(rng, n):
    """Particles of an ellipsoidal halo around the origin whose size (r200) is 1 and mass 1, and what is known about it."""
    prof = str(rng.choice(["nfw", "hernquist", "einasto", "alpha_beta_gamma"], p=[.35, .35, .15, .15]))
    t = SimpleNamespace(p=dict(profile=prof), c=rng.uniform(3, 12), n=n)
    if prof == "einasto":
        t.p["alpha"] = rng.uniform(.12, .3)
    if prof == "alpha_beta_gamma":
        t.p.update(alpha=rng.uniform(.7, 1.5), beta=rng.uniform(2.5, 3.5), gamma=rng.uniform(.4, 1.3))
    t.q = rng.uniform(.45, .93)
    t.s = max(.35, t.q * rng.uniform(.5, .93))
    if rng.random() < .4:
        t.q = t.s = 1.0
    t.R = gen.rotation(rng)
    g = np.concatenate([[0], np.logspace(-7, np.log10(EDGE), 4000)])
    shell = rho(t.p, (g[1:] + g[:-1]) / 2 * t.c) * (g[1:] ** 3 - g[:-1] ** 3) * 4 * np.pi / 3
    cum = np.concatenate([[0], np.cumsum(shell)])
    t.rs = 1 / (cum[-1] * t.q * t.s)         # rho_s of the halo of mass 1
    t.r = np.interp((np.arange(n) + rng.random(n)) / n * cum[-1], cum, g)     # ellipsoidal radii, the quiet way
    u = rng.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    t.m = np.full(n, 1.0 / n)
    t.neff = 1.0
    if rng.random() < .3:        # particles of two masses, at random
        t.m = np.where(rng.random(n) < .5, 1.0, .4)
        t.neff = t.m.sum() ** 2 / (t.m ** 2).sum() / n * .6
        t.m /= t.m.sum()
    t.x = (t.r[:, None] * u * [1, t.q, t.s]) @ t.R.T
    t.sig = np.array([1, rng.uniform(.45, .93), 0])
    t.sig[2] = t.sig[1] * rng.uniform(.45, .93)
    t.sig *= rng.uniform(20, 400)
    t.RV = gen.rotation(rng)
    t.v = (rng.normal(size=(n, 3)) * t.sig) @ t.RV.T + rng.normal(size=3) * 200
    return t


def one(ctx, rng, d):
    import cosmic_profiles as cp
    nobj = int(rng.integers(1, 4))
    sizes = [int(rng.choice([4000, 10000, 25000])) for _ in range(nobj)]
    ts = [halo(rng, n) for n in sizes]
    gadget = rng.random() < .4
    scale = 10 ** rng.uniform(-1.3, -.1)
    periodic = gadget or rng.random() < .6
    L = scale * rng.uniform(5.2, 20) if periodic else 0.0      # a halo stays below half the box
    M = 10 ** rng.uniform(-1, 5, nobj)
    r200 = scale * rng.uniform(.4, 1, nobj)
    xyz, v, m, idx = [], [], [], []
    for k, t in enumerate(ts):
        t.M, t.r200 = M[k], r200[k]
        c = rng.uniform(0, L, 3) if periodic else rng.uniform(-5, 5, 3)
        if periodic and rng.random() < .6:
            c = np.where(rng.random(3) < .5, rng.choice([0, L], 3) + rng.uniform(-.5, .5, 3) * r200[k], c)
        t.ctr = c
        xyz.append(t.x * r200[k] + c)
        m.append(t.m * M[k])
        v.append(t.v)
    nb = int(rng.integers(0, 500))
    xyz.append(rng.uniform(0, L, (nb, 3)) if periodic else rng.uniform(-5, 5, (nb, 3)))
    m.append(10 ** rng.uniform(-3, 3, nb))
    v.append(rng.normal(size=(nb, 3)) * 300)
    xyz, m, v = np.vstack(xyz), np.concatenate(m), np.vstack(v)
    if periodic:
        xyz = np.mod(xyz, L)
        xyz[xyz >= L] = 0.0
    perm = rng.permutation(len(m))
    new = np.empty_like(xyz), np.empty_like(m), np.empty_like(v)
    new[0][perm], new[1][perm], new[2][perm] = xyz, m, v
    xyz, m, v = new
    off = np.concatenate([[0], np.cumsum(sizes)])
    idx = [perm[off[k]:off[k + 1]] for k in range(nobj)]
    center = str(rng.choice(["mode", "com"]))
    set_threads(int(rng.integers(1, 9)))
    h = gen.H
    uout = c11.pick(rng, h)
    uin = c11.pick(rng, h)
    li, mi = c11.LEN["Mpc"] / h, c11.MASS["E+10Msun"] / h
    lo, mo, vo = c11.cgs(uout["length_in_cm"], c11.LEN, h) / li, c11.cgs(uout["mass_in_g"], c11.MASS, h) / mi, c11.vel(uout["velocity_in_cm_per_s"])
    ctx.describe(gadget=gadget, uin=uin, uout=uout, L=L, center=center, halos=[dict(p=t.p, c=t.c, q=t.q, s=t.s, n=t.n, M=t.M, r200=t.r200, ctr=t.ctr) for t in ts])
    if gadget:
        cat = SimpleNamespace(xyz=xyz, m=m, idx=idx, r200=r200, L=float(L), v=v, meta={})
        with ctx.target("DensShapeProfsGadget"):
            o, cat = snap.simulation(rng, cat, d, center, 100, str(rng.choice(["dm", "stars", "gas"])))
        for t, r in zip(ts, cat.r200):
            t.r200 = float(r)        # stored in single precision
    else:
        lf, mf = c11.cgs(uin["length_in_cm"], c11.LEN, h) / li, c11.cgs(uin["mass_in_g"], c11.MASS, h) / mi
        cp.updateInUnitSystem(**uin)
        with ctx.target("DensShapeProfs"):
            o = cp.DensShapeProfs(xyz / lf, m / mf, [list(map(int, i)) for i in idx] if rng.random() < .5 else [np.int32(i) for i in idx],
                                  r200 / lf, L / lf, "000", d + "/viz", d + "/cat", MIN_NUMBER_PTCS=100, CENTER=center)
    cp.updateOutUnitSystem(**uout)
    sel = rng.permutation(nobj)[:int(rng.integers(1, nobj + 1))]
    arg = sel.tolist()
    cfg = dict(ROverR200=RK, IT_TOL=1e-3, IT_WALL=100, IT_MIN=10, REDUCED=bool(rng.random() < .4), SHELL_BASED=False)
    with ctx.target("getMassesCenters"):
        mc = o.getMassesCenters(arg)
    with ctx.target("getShapeCatLocal"):
        loc = o.getShapeCatLocal(arg, cfg)
    with ctx.target("getShapeCatGlobal"):
        glo = o.getShapeCatGlobal(arg, cfg)
    with ctx.target("estDensProfs, ellipsoids"):
        ell = o.estDensProfs(RD, arg, True, False, dict(cfg, ROverR200=RD))
    with ctx.target("estDensProfs, spheres"):
        sph = o.estDensProfs(RD, arg, True, True)
    with ctx.target("estDensProfs, kernel"):
        ker = o.estDensProfs(RD, arg, False)
    vel = vloc = None
    if gadget:
        with ctx.target("getShapeCatVelLocal"):
            vloc = o.getShapeCatVelLocal(arg, dict(cfg, REDUCED=False))
        with ctx.target("getShapeCatVelGlobal"):
            vel = o.getShapeCatVelGlobal(arg, dict(cfg, REDUCED=False))
    got = o.getIdxCat()[1]
    ctx.check(list(map(int, got)) == sizes, "objects have the sizes given", got=got, expected=sizes)
    with ctx.target("getR200"):
        ctx.close(np.asarray(o.getR200())[sel], np.array([ts[k].r200 for k in sel]) / lo, "sizes are those given", rtol=2e-6)
    for i, k in enumerate(sel):
        judge(ctx, ts[k], i, L, center, lo, mo, mc, loc, glo, vel, vloc, ell, sph, ker)
    fits(ctx, rng, o, [ts[k] for k in sel], arg, ell, sph, lo, mo)


def within(ctx, name, dev, tol, **kw):
    ctx.check(bool((np.abs(dev) <= tol).all()), name, deviation=dev, tolerance=tol, **kw)


def judge(ctx, t, i, L, center, lo, mo, mc, loc, glo, vel, vloc, ell, sph, ker):
    n, round_ = t.n * t.neff, t.q == 1
    kw = dict(center=center)
    ctx.close(mc["mass"][i], t.M / mo, "mass is recovered", rtol=1e-5)
    c = np.asarray(mc["centre"][i], float) * lo - t.ctr
    if L:
        c -= L * np.round(c / L)
    within(ctx, center + " centre is recovered", np.linalg.norm(c) / t.r200, .025 + 2.5 / np.sqrt(n), **kw)
    ins = np.array([(t.r < R).sum() for R in RK]) * t.neff
    ok = np.asarray(loc["is_conv"][i], bool)
    if not ctx.check(ok.any(), "shapes of well-sampled halos converge", got=ok):
        return
    ctx.ev("radii at which the iteration does not settle", int((~ok).sum()))
    ctx.close(loc["d"][i][ok], RK[ok] * t.r200 / lo, "radii are those asked for", rtol=1e-5)
    within(ctx, "q is recovered", (loc["q"][i] - t.q)[ok], ((12 if round_ else 10) / np.sqrt(ins))[ok], truth=t.q)
    within(ctx, "s is recovered", (loc["s"][i] - t.s)[ok], ((18 if round_ else 10) / np.sqrt(ins))[ok], truth=t.s)
    within(ctx, "global q is recovered", glo["q"][i] - t.q, (8 if round_ else 6) / np.sqrt(n), truth=t.q)
    within(ctx, "global s is recovered", glo["s"][i] - t.s, (12 if round_ else 6) / np.sqrt(n), truth=t.s)
    if not round_:
        for nm, col, gap in (("major", 0, 1 - t.q), ("minor", 2, t.q - t.s)):
            tol = 8 / np.sqrt(ins) / gap
            within(ctx, nm + " axis is recovered", angle(loc[nm][i], t.R[:, col])[ok], np.minimum(tol, 10)[ok], gap=gap)
            within(ctx, "global %s axis is recovered" % nm, angle(glo[nm][i], t.R[:, col]), min(4 / np.sqrt(n) / gap, 10), gap=gap)
    if vel is not None:
        ctx.check(bool(vel["is_conv"][i]), "velocity shapes of well-sampled halos converge")
        within(ctx, "velocity q is recovered", vel["q"][i] - t.sig[1] / t.sig[0], 5 / np.sqrt(n))
        within(ctx, "velocity s is recovered", vel["s"][i] - t.sig[2] / t.sig[0], 6 / np.sqrt(n))
        inner = np.linalg.norm(t.x, axis=1)
        inner = np.array([(inner < R * t.sig[2] / t.sig[0]).sum() for R in RK]) * t.neff       # at least these
        ok = np.asarray(vloc["is_conv"][i], bool) & (inner > 200)
        within(ctx, "local velocity q is recovered", (vloc["q"][i] - t.sig[1] / t.sig[0])[ok], 6 / np.sqrt(inner[ok]))
        within(ctx, "local velocity s is recovered", (vloc["s"][i] - t.sig[2] / t.sig[0])[ok], 6 / np.sqrt(inner[ok]))
        for nm, col, gap in (("major", 0, 1 - t.sig[1] / t.sig[0]), ("minor", 2, (t.sig[1] - t.sig[2]) / t.sig[0])):
            within(ctx, "velocity %s axis is recovered" % nm, angle(vel[nm][i], t.RV[:, col]), min(6 / np.sqrt(n) / gap, 10))
    true = t.rs * rho(t.p, RD * t.c) * t.M / t.r200 ** 3 / mo * lo ** 3
    step = RD[1] / RD[0]
    nbin = np.array([((t.r > R / np.sqrt(step)) & (t.r <= R * np.sqrt(step))).sum() for R in RD]) * t.neff
    j = slice(3, 11)     # the first and last shells of the list reach beyond it
    with np.errstate(all="ignore"):
        within(ctx, "density in ellipsoids is recovered", np.log(ell[i] / true)[j], (.1 + 6 / np.sqrt(nbin))[j], ratios=(t.q, t.s))
        if round_:
            within(ctx, "density in spheres is recovered", np.log(sph[i] / true)[j], (.06 + 2 / np.sqrt(nbin))[j])
            within(ctx, "density from kernels is recovered", np.log(ker[i] / true)[j], (.2 + 2.5 / np.sqrt(nbin))[j])
    ctx.sig(t.p["profile"], center, int(np.log2(t.n)), round_, round(t.q, 1), round(t.s, 1), vel is not None, bool(L))


def angle(a, b):
    return np.arccos(np.minimum(1, np.abs(np.asarray(a, float) @ b)))


def fits(ctx, rng, o, ts, arg, ell, sph, lo, mo):
    """All selected halos of one profile are fitted together."""
    for prof in sorted({t.p["profile"] for t in ts} & {"nfw", "hernquist"}):
        w = [i for i, t in enumerate(ts) if t.p["profile"] == prof]
        j = slice(2, 11)
        dens = np.array([(sph if ts[i].q == 1 else ell)[i][j] for i in w])
        method = dict(profile=prof, min_method=str(rng.choice(["Nelder-Mead", "L-BFGS-B"])))
        a = [arg[i] for i in w]
        with ctx.target("fitDensProfs"):
            f = o.fitDensProfs(dens, RD[j], method, a)
        with ctx.target("estConcentrations"):
            cs = o.estConcentrations(dens, RD[j], method, a)
        for k, i in enumerate(w):
            t = ts[i]
            tol = .15 + 25 / np.sqrt(t.n * t.neff)
            within(ctx, "concentration is recovered", np.log(float(cs[k]) / t.c), tol, c=t.c, got=cs[k])
            within(ctx, "scale radius is recovered", np.log(float(f["r_s"][k]) * lo / (t.r200 / t.c)), tol, got=f["r_s"][k])
            within(ctx, "density scale is recovered", np.log(float(f["rho_s"][k]) * mo / lo ** 3 / (t.rs * t.M / t.r200 ** 3)), 3 * tol + .2, got=f["rho_s"][k])
