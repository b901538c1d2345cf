"""C11: results do not depend on the units in which the catalogue is given, and come out in the units asked for."""
import os, shutil
import numpy as np
from types import SimpleNamespace
import gen, refs, snap
from harness import Skip, set_threads, load

c03 = load("c03")
c14 = load("c14")
KPC, MSUN = 3.085678e21, 1.989e33
LEN = {"pc": KPC / 1e3, "kpc": KPC, "Mpc": KPC * 1e3, "Gpc": KPC * 1e6}
MASS = {"Msun": MSUN, "E+10Msun": MSUN * 1e10}


def cgs(u, table, h):
    if not isinstance(u, str):
        return u
    return table[u[:-2]] / h if u.endswith("/h") else table[u]


def vel(u):
    return 1e5 if u == "km/s" else u


def pick(rng, h):
    def one(table, lo, hi):
        if rng.random() < .2:
            return float(10 ** rng.uniform(lo, hi))
        k = str(rng.choice(list(table)))
        return k + ("/h" if rng.random() < .5 else "")
    v = "km/s" if rng.random() < .7 else float(10 ** rng.uniform(0, 6))
    return dict(length_in_cm=one(LEN, 19, 26), mass_in_g=one(MASS, 30, 45), velocity_in_cm_per_s=v, little_h=h)


def run(ctx):
    for i, rng in ctx.cases(700, 40000, until=.6):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
        finally:
            gen.internal_units()
    tmp = os.getcwd()
    for i, rng in ctx.cases(240, 12000, "snap", until=.85):
        d = os.path.join(tmp, "snap%s_%d" % (ctx.case, ctx.seed))
        try:
            snapshot(ctx, rng, d)
        except Skip:
            continue
        finally:
            gen.internal_units()
            shutil.rmtree(d, ignore_errors=True)
    all_ = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {all_[ctx.shard % len(all_)]})
    for i, rng in ctx.cases(48, 3000, "fit"):
        try:
            fit(ctx, rng)
        except Skip:
            continue
        finally:
            gen.internal_units()


def one(ctx, rng, i):
    import cosmic_profiles as cp
    from cosmic_profiles.common import config
    h = float(rng.choice([.6774, .7, rng.uniform(.4, .99)]))
    uin, uout = pick(rng, h), pick(rng, h)
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=60, nmax=300)
    cfg = gen.katz(rng, nr=int(rng.integers(2, 6)))
    R = np.sort(rng.uniform(.05, 1.2, int(rng.integers(3, 8)))) + 0.01 * np.arange(1)
    center = str(rng.choice(["mode", "com"]))
    set_threads(int(rng.integers(1, 9)))
    ctx.describe(uin=uin, uout=uout, meta=cat.meta, center=center, R=R, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    li, mi = LEN["Mpc"] / h, MASS["E+10Msun"] / h       # units in which cat is drawn
    internal = dict(gen.INTERNAL, little_h=h)
    cp.updateInUnitSystem(**internal)
    cp.updateOutUnitSystem(**internal)
    A = c03.measure(ctx, cat, cfg, center, R, "measuring")
    given = SimpleNamespace(**vars(cat))
    a, b = li / cgs(uin["length_in_cm"], LEN, h), mi / cgs(uin["mass_in_g"], MASS, h)
    given.xyz, given.m, given.r200, given.L = cat.xyz * a, cat.m * b, cat.r200 * a, cat.L * a
    with ctx.target("setting units"):
        if rng.random() < .5:
            cp.updateInUnitSystem(**uin)
            cp.updateOutUnitSystem(**uout)
        else:
            cp.updateOutUnitSystem(**uout)
            cp.updateInUnitSystem(**uin)
    B = c03.measure(ctx, given, cfg, center, R, "measuring in other units")
    lo, mo = li / cgs(uout["length_in_cm"], LEN, h), mi / cgs(uout["mass_in_g"], MASS, h)
    al, ag, ac, asph, gl, gg = c03.hinges(cat, cfg, center, R)
    rt = 1e-6
    for nm, x, y, amb in (("local", A.loc, B.loc, al), ("global", A.glo, B.glo, ag)):
        for f in ("q", "s"):
            ctx.close(np.asarray(y[f], float)[~amb], np.asarray(x[f], float)[~amb], nm + " ratios do not depend on units", rtol=rt)
        ctx.close(np.asarray(y["d"], float)[~amb], np.asarray(x["d"], float)[~amb] * lo, nm + " radii are in the units asked for", rtol=rt)
        ok = ~amb & ((gl if nm == "local" else gg) > 1e-3) & ~np.isnan(np.asarray(x["q"], float))
        for f in ("minor", "inter", "major"):
            dots = np.abs((np.asarray(x[f], float)[ok] * np.asarray(y[f], float)[ok]).sum(-1))
            if dots.size:
                ctx.check((np.abs(dots - 1) < 1e-5).all(), "axes do not depend on units", worst=float(dots.min()))
    oc = ~ac
    ctx.close(B.cen["mass"], A.cen["mass"] * mo, "masses are in the units asked for", rtol=1e-9)
    d = B.cen["centre"][oc] / lo - A.cen["centre"][oc]
    d = refs.wrap_diff(d, 0 * d, cat.L)
    ctx.check((np.abs(d) < 1e-7 * np.abs(cat.xyz).max()).all(), "centres are in the units asked for", got=B.cen["centre"], ref=A.cen["centre"] * lo)
    okc = np.repeat(oc[:, None], len(R), 1) & ~asph
    x, y = A.sph[okc] * mo / lo ** 3, B.sph[okc]
    ctx.close(y, x, "densities are in the units asked for", rtol=3e-5, atol=1e-12 * (np.abs(x).max() if x.size else 0))
    x, y = A.ker[oc] * mo / lo ** 3, B.ker[oc]
    ctx.close(y, x, "kernel densities are in the units asked for", rtol=5e-3, atol=1e-5 * (np.abs(x).max() if x.size else 0))
    with ctx.target("accessors"):
        o = cp.DensShapeProfs(given.xyz, given.m, [np.int32(z) for z in given.idx], given.r200, given.L, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER=center)
        X, M = o.getXYZMasses()
        r2 = o.getR200()
        lab = config.LMVLabel()
        conv = (config.LengthInternalToOut(1.0), config.LengthInToInternal(1.0), config.MassInToInternal(1.0))
        convm = config.MassInternalToOut(1.0)
        convv = config.VelInternalToOut(1.0), config.VelInToInternal(1.0)
    ctx.close(np.asarray(X), cat.xyz * lo, "positions are returned in the units asked for", rtol=1e-9, atol=1e-12 * np.abs(cat.xyz).max() * lo)
    ctx.close(np.asarray(M), cat.m * mo, "particle masses are returned in the units asked for", rtol=1e-9)
    ctx.close(np.asarray(r2), cat.r200 * lo, "virial radii are returned in the units asked for", rtol=1e-9)
    ctx.close(np.array(conv, float), [lo, 1 / a, 1 / b], "conversion factors", rtol=1e-6)
    if mo < 1e38:
        ctx.close(float(convm), mo, "conversion factors", rtol=1e-6)
    ctx.close(np.array(convv, float), [1e5 / vel(uout["velocity_in_cm_per_s"]), vel(uin["velocity_in_cm_per_s"]) / 1e5], "velocity conversion factors", rtol=1e-6)
    if uout["velocity_in_cm_per_s"] == "km/s":
        ctx.check(lab[2] == "km/s", "the label names the unit", label=lab[2])
    for u, l in ((uout["length_in_cm"], lab[0]), (uout["mass_in_g"], lab[1])):
        if isinstance(u, str):
            ctx.check(l == u, "the label names the unit", label=l, unit=u, h=h)
    ctx.sig(tuple(str(uin[k]) if isinstance(uin[k], str) else "cgs" for k in ("length_in_cm", "mass_in_g")),
            tuple(str(uout[k]) if isinstance(uout[k], str) else "cgs" for k in ("length_in_cm", "mass_in_g")))
    ctx.ev("unit systems compared")


def fit(ctx, rng):
    """rho_s and r_s are in the output units too, given or returned; concentrations have none."""
    import cosmic_profiles as cp
    h = .6774
    uout = pick(rng, h)
    li, mi = LEN["Mpc"] / h, MASS["E+10Msun"] / h
    lo, mo = li / cgs(uout["length_in_cm"], LEN, h), mi / cgs(uout["mass_in_g"], MASS, h)
    prof = str(rng.choice(["nfw", "hernquist", "einasto", "alpha_beta_gamma"]))
    gen.internal_units()
    n = 2
    r200 = rng.uniform(.2, 1.5, n)
    x = rng.normal(size=(6 * n, 3))
    o = cp.DensShapeProfs(x, np.ones(6 * n), [np.arange(6 * k, 6 * k + 6) for k in range(n)], r200, 0.0, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER="com")
    R = np.logspace(-1.3, 0, 20)
    p = dict(rho_s=10 ** rng.uniform(0, 6), r_s=.2, alpha=.2 if prof == "einasto" else 1., beta=3., gamma=1.)
    dens = np.array([refs.PROFS[prof](R * r, dict(p, r_s=p["r_s"] * r)) for r in r200]) * np.exp(.02 * rng.normal(size=(n, 20)))
    method = {"profile": prof, "min_method": "Nelder-Mead"}
    if prof == "alpha_beta_gamma" and rng.random() < .8:        # free slopes are too degenerate to compare
        method.update(alpha=1., beta=3., gamma=1.)
    k = rng.integers(0, 3)
    if k == 1:
        method["r_s"] = float(.25 * r200[0])
    elif k == 2:
        method["rho_s"] = float(p["rho_s"] * 1.3)
    ctx.describe(uout=uout, method=method, r200=r200)
    with ctx.target("fitDensProfs"):
        A = o.fitDensProfs(dens, R, method, [0, 1])
        cA = np.asarray(o.estConcentrations(dens, R, method, [0, 1]), float)
    cp.updateOutUnitSystem(**uout)
    m2 = dict(method)
    if k == 1:
        m2["r_s"] *= lo
    elif k == 2:
        m2["rho_s"] *= mo / lo ** 3
    with ctx.target("fitDensProfs"):
        B = o.fitDensProfs(dens * mo / lo ** 3, R, m2, [0, 1])
        cB = np.asarray(o.estConcentrations(dens * mo / lo ** 3, R, m2, [0, 1]), float)
    tol = 2e-3
    ok = A["is_conv"] & (prof != "alpha_beta_gamma" or "alpha" in method)
    ctx.check((A["is_conv"] == B["is_conv"]).all(), "convergence does not depend on units")
    ctx.close(B["rho_s"][ok], A["rho_s"][ok] * mo / lo ** 3, "rho_s is in the units asked for", rtol=tol)
    ctx.close(B["r_s"][ok], A["r_s"][ok] * lo, "r_s is in the units asked for", rtol=tol)
    for f in [f for f in ("alpha", "beta", "gamma") if f in B.dtype.names]:
        ctx.close(B[f][ok], A[f][ok], "slopes do not depend on units", rtol=tol)
    ctx.close(cB[ok], cA[ok], "concentrations do not depend on units", rtol=tol)
    ctx.sig("fit", prof, "alpha" in method, int(k), str(uout["length_in_cm"])[:3])


def snapshot(ctx, rng, d):
    """The same simulation, stored in the internal and in other units, read and analysed with the units declared."""
    import cosmic_profiles as cp
    typ = str(rng.choice(["dm", "stars", "gas"]))
    ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
    h = float(rng.choice([.6774, .7, rng.uniform(.4, .99)]))
    uin, uout = pick(rng, h), pick(rng, h)
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=60, nmax=300, velocities=True, overlap=False, periodic=True)
    z = float(rng.choice([0.0, 1.0]))
    sa = 1 / np.sqrt(1 + z)
    part, fof, subs, cat = snap.population(rng, cat, (1.0, 1.0, 1 / sa), ptype, 10)
    li, mi = LEN["Mpc"] / h, MASS["E+10Msun"] / h
    a, b, c = li / cgs(uin["length_in_cm"], LEN, h), mi / cgs(uin["mass_in_g"], MASS, h), 1e5 / vel(uin["velocity_in_cm_per_s"])
    lo, mo, vo = li / cgs(uout["length_in_cm"], LEN, h), mi / cgs(uout["mass_in_g"], MASS, h), 1e5 / vel(uout["velocity_in_cm_per_s"])
    cfg = gen.katz(rng, nr=int(rng.integers(1, 5)))
    center, which = str(rng.choice(["mode", "com"])), str(rng.choice(["Rvir", "R200"]))
    R = np.sort(rng.uniform(.05, 1.2, int(rng.integers(3, 8))))
    fmt = int(rng.integers(0, 3))
    th = int(rng.integers(1, 9))
    n = len(cat.idx)
    sel = np.arange(n)
    ctx.describe(uin=uin, uout=uout, meta=cat.meta, center=center, R=R, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, type=typ, fmt=fmt, z=z, radius=which)
    got = []
    for k, (x, y, w) in enumerate(((1.0, 1.0, 1.0), (a, b, c))):
        base = os.path.join(d, str(k))
        p = dict(part, pos=part["pos"] * x, vel=part["vel"] * w, mass=part["mass"] * y)
        head = snap.header(rng, BoxSize=cat.L * x, Redshift=z, Time=sa ** 2)
        nf = int(rng.choice([1, 2]))
        sp = base + "/snap_024"
        snap.write_hdf5(sp, {ptype: p}, head, nf, rng) if fmt == 0 else snap.write_binary(sp, {ptype: p}, head, nf, rng, fmt)
        snap.write_fof(base + "/g", dict(fof, rvir=fof["rvir"] * x, r200=fof["r200"] * x), subs, int(rng.choice([1, 3])), rng)
        internal = dict(gen.INTERNAL, little_h=h)
        cp.updateInUnitSystem(**(uin if k else internal))
        cp.updateOutUnitSystem(**(uout if k else internal))
        set_threads(th)
        with ctx.target("a snapshot in %s units" % ("other" if k else "internal")):
            o = cp.DensShapeProfsGadget(sp, base + "/g", typ, "024", d + "/viz", d + "/cat", RVIR_OR_R200=which, MIN_NUMBER_PTCS=10, CENTER=center)
            X, M = o.getXYZMasses()
            got.append(SimpleNamespace(loc=o.getShapeCatLocal(sel, cfg), glo=o.getShapeCatGlobal(sel, cfg), vloc=o.getShapeCatVelLocal(sel, cfg), vglo=o.getShapeCatVelGlobal(sel, cfg),
                                       X=np.asarray(X), M=np.asarray(M), V=np.asarray(o.getVelXYZ()), r200=np.asarray(o.getR200()), cen=o.getMassesCenters(sel),
                                       sph=np.asarray(o.estDensProfs(R, sel, True, True)), ker=np.asarray(o.estDensProfs(R, sel, False, True))))
    A, B = got
    r200 = cat.rvir if which == "Rvir" else cat.r200m
    w = "of a snapshot "
    ctx.close(A.r200, r200, w + "virial radii", rtol=1e-6)
    ctx.close(B.r200, r200 * lo, w + "virial radii are in the units asked for", rtol=1e-6)
    for g, l, m, v, s in ((A, 1.0, 1.0, 1.0, "internal"), (B, lo, mo, vo, "other")):
        ctx.close(g.X, cat.xyz * l, w + "positions are in the units asked for", rtol=1e-6, atol=1e-12 * cat.L * l)
        ctx.close(g.M, cat.m * m, w + "particle masses are in the units asked for", rtol=1e-6)
        ctx.close(g.V, cat.v * v, w + "velocities are in the units asked for", rtol=1e-6, atol=1e-9 * np.abs(cat.v).max() * v)
    cat.r200 = r200
    al, ag, ac, asph, gl, gg = c03.hinges(cat, cfg, center, R, near=1e-6)
    vl, vg = al.copy(), ag.copy()
    for k, ii in enumerate(cat.idx):
        x, m, v = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii], cat.v[ii]
        cc, amb = refs.centre(x, m, center)
        vb = refs.com(v, m)
        kw = dict(reduced=cfg["REDUCED"], tol=cfg["IT_TOL"], wall=cfg["IT_WALL"], itmin=cfg["IT_MIN"], near=1e-6, near_err=1e-3)
        for j, Rj in enumerate(cfg["ROverR200"]):
            dd = r200[k] * Rj
            delta = None if not cfg["SHELL_BASED"] else dd if j == 0 else r200[k] * (Rj - cfg["ROverR200"][j - 1])
            ref = c14.judge(rng, x - cc, m, dd, delta, v - vb, vb, kw)
            vl[k, j] = ref["amb"] or amb or ref["ok"] is None
        ref = c14.judge(rng, x - cc, m, r200[k] + 6.0, None, v - vb, vb, kw)
        vg[k] = ref["amb"] or amb or ref["ok"] is None
    ctx.undec("hinges on rounding", int(al.sum() + ag.sum() + vl.sum() + vg.sum()))
    for nm, x, y, amb in (("local", A.loc, B.loc, al), ("global", A.glo, B.glo, ag), ("velocity local", A.vloc, B.vloc, vl), ("velocity global", A.vglo, B.vglo, vg)):
        for f in ("q", "s"):
            ctx.close(np.asarray(y[f], float)[~amb], np.asarray(x[f], float)[~amb], w + nm + " ratios do not depend on units", rtol=3e-4 if "vel" in nm else 1e-5)
        ctx.close(np.asarray(y["d"], float)[~amb], np.asarray(x["d"], float)[~amb] * lo, w + nm + " radii are in the units asked for", rtol=1e-6)
    oc = ~ac
    ctx.close(B.cen["mass"], A.cen["mass"] * mo, w + "masses are in the units asked for", rtol=1e-6)
    dx = refs.wrap_diff(B.cen["centre"][oc] / lo - A.cen["centre"][oc], 0 * A.cen["centre"][oc], cat.L)
    ctx.check((np.abs(dx) < 1e-6 * cat.L).all(), w + "centres are in the units asked for")
    okc = np.repeat(oc[:, None], len(R), 1) & ~asph
    x, y = A.sph[okc] * mo / lo ** 3, B.sph[okc]
    ctx.close(y, x, w + "densities are in the units asked for", rtol=3e-5, atol=1e-12 * (np.abs(x).max() if x.size else 0))
    x, y = A.ker[oc] * mo / lo ** 3, B.ker[oc]
    ctx.close(y, x, w + "kernel densities are in the units asked for", rtol=5e-3, atol=1e-5 * (np.abs(x).max() if x.size else 0))
    ctx.sig("snapshot", fmt, typ, tuple(str(u[k])[:8] if isinstance(u[k], str) else "cgs" for u in (uin, uout) for k in ("length_in_cm", "mass_in_g", "velocity_in_cm_per_s")))
    ctx.ev("snapshots in other units")
