"""C17: mock halos have the mass, profile, shape and number of particles asked for."""
import os
import numpy as np
from scipy import integrate, stats
import gen
from harness import Skip, set_threads

_ALL = sorted(os.sched_getaffinity(0))


def run(ctx):
    pin(ctx)
    for i, rng in ctx.cases(2000, 20000):
        try:
            halo(ctx, rng)
        except Skip:
            pass
    for i, rng in ctx.cases(400, 6000, "ell"):
        try:
            ellipsoid(ctx, rng)
        except Skip:
            pass
    for i, rng in ctx.cases(60, 1000, "shell"):
        try:
            membership(ctx, rng)
        except Skip:
            pass


def pin(ctx, n=1):
    k = ctx.shard % len(_ALL)
    os.sched_setaffinity(0, {_ALL[(k + j) % len(_ALL)] for j in range(n)})


def rho(profile, p):
    rs = p["r_s"]
    if profile == "einasto":
        return lambda r: np.exp(-2 / p["alpha"] * ((r / rs) ** p["alpha"] - 1))
    if profile == "alpha_beta_gamma":
        return lambda r: (r / rs) ** -p["gamma"] * (1 + (r / rs) ** p["alpha"]) ** (-(p["beta"] - p["gamma"]) / p["alpha"])
    k = 3 if profile == "hernquist" else 2
    return lambda r: 1 / ((r / rs) * (1 + r / rs) ** k)


def mass(f, lo, hi):
    """Integral of 4 pi r^2 rho in logarithmic steps."""
    g = lambda u: 4 * np.pi * np.exp(3 * u) * f(np.exp(u))
    lo, hi = np.log(max(lo, 1e-8)), np.log(hi)
    return sum(integrate.quad(g, a, b, epsrel=1e-10)[0] for a, b in zip(np.linspace(lo, hi, 9)[:-1], np.linspace(lo, hi, 9)[1:]))


def halo(ctx, rng):
    import cosmic_profiles as cp
    profile = str(rng.choice(["nfw", "hernquist", "einasto", "alpha_beta_gamma"]))
    rvir = float(10 ** rng.uniform(-1, .5))
    pars = {"r_s": float(rvir * rng.uniform(.05, .6))}
    if profile == "einasto":
        pars["alpha"] = float(rng.uniform(.12, 1.0))
    if profile == "alpha_beta_gamma":
        pars.update(alpha=float(rng.uniform(.6, 2)), beta=float(rng.uniform(2.5, 4)), gamma=float(rng.uniform(.0, 1.4)))
    if rng.random() < .3:
        pars["rho_s"] = 123.0           # left over from another halo
    nb = int(rng.choice([2, 3, 6, 15, 40, 41, 100]))
    a = np.logspace(rng.uniform(-2, -.5), rng.uniform(-.05, .2), nb) * rvir if rng.random() < .7 else np.linspace(.1, 1, nb) * rvir
    const = rng.random() < .75
    q, s = np.sort(rng.uniform(.15, 1, 2))[::-1]
    if const:
        b, c = a * q, a * s
    else:
        b, c = a * np.linspace(q, 1, nb), a * np.linspace(s, q, nb)
    res = int(10 ** (rng.uniform(1.2, 3.7) if rng.random() < .98 else rng.uniform(3.7, 5.2)))
    tot = float(10 ** rng.uniform(9, 14))
    ctx.describe(profile=profile, pars=pars, shells=nb, res=res, tot=tot, a=a, q=q, s=s, const=const)
    keep, own = (a.copy(), b.copy(), c.copy()), dict(pars)
    f = rho(profile, pars)
    M = np.array([mass(f, 1e-8 if k == 0 else a[k - 1], a[k]) for k in range(nb)])
    M *= tot / M.sum()
    state = int(rng.integers(2 ** 31))
    np.random.seed(state)
    try:
        x, y, z, mp, rho_s = cp.genHalo(tot, res, pars, profile, a, b, c)
    except ValueError as e:
        ctx.check("resolution" in str(e), "a resolution that leaves the halo empty is refused", error=repr(e))
        N1 = res * M[1:].sum() / tot
        ctx.check(N1 < .51, "a sufficient resolution is accepted", expected_outside_first=float(N1))
        return
    except Exception as e:
        ctx.check(False, "raises on a valid input: genHalo", error=repr(e)[:300])
        return
    n = len(x)
    ctx.check(n == len(y) == len(z) and n > 0, "as many coordinates in every direction")
    ctx.check(all(np.array_equal(u, v) for u, v in zip((a, b, c), keep)), "arguments are left alone")
    ctx.check({k: v for k, v in pars.items() if k != "rho_s"} == {k: v for k, v in own.items() if k != "rho_s"}, "model parameters are left alone")
    ctx.close(mp * n, tot, "particle masses add up to the mass of the halo", rtol=3e-4)
    ctx.close(rho_s, tot / mass(f, 1e-8, a[-1]), "rho_s normalises the profile to the mass", rtol=3e-4)
    ctx.close(pars.get("rho_s", np.nan), rho_s, "rho_s is handed back among the parameters", rtol=1e-12)
    # particles per shell
    X = np.stack([x, y, z], 1)
    inside = np.array([((X / [a[k], b[k], c[k]]) ** 2).sum(1) <= 1 + 1e-10 for k in range(nb)])
    ctx.check(inside[-1].all(), "no particle lies outside the outermost shell", worst=float(((X / [a[-1], b[-1], c[-1]]) ** 2).sum(1).max()))
    cum = inside.sum(1)
    # the halo is built on coarser shells if the first proper one would stay empty
    idx = list(range(nb))
    while round(res * M[idx[0] + 1:idx[1] + 1].sum() / tot) == 0 and len(idx) > 2:
        idx = idx[::2] if len(idx) % 2 else idx[::2] + [idx[-1]]
    m1 = M[idx[0] + 1:idx[1] + 1].sum()
    edge = abs((res * m1 / tot) % 1 - .5)
    counts = np.diff(np.concatenate([[0], cum[idx]]))
    want = np.array([M[(idx[k - 1] + 1 if k else 0):idx[k] + 1].sum() for k in range(len(idx))]) * res / tot
    tol = .5 + .5 * want / (res * m1 / tot) + 1e-4 * want + 1e-6
    if edge < 1e-6 or len(idx) == 2 and round(res * m1 / tot) == 0:
        ctx.undec("number of shells hinges on rounding")
    else:
        ctx.check((np.abs(counts - want) <= tol).all(), "particles per shell are in proportion to its mass", counts=counts, expected=want, shells=len(idx))
        if counts[1] > 0:
            exact = counts[1] * want / want[1]
            ctx.check((np.abs(counts - exact) <= .5 + 1e-4 * exact + 1e-6).all(), "shells are populated in proportion to the first proper one", counts=counts, expected=exact)
    ctx.ev("coarser shells" if len(idx) < nb else "all shells")
    # directions are isotropic in the stretched frame
    if const and n >= 50:
        u = X / [1, q, s]
        r = np.linalg.norm(u, axis=1)
        u = u / r[:, None]
        dev = np.abs(u.mean(0)).max() / np.sqrt(1 / (3 * n))
        dev2 = np.abs((u ** 2).mean(0) - 1 / 3).max() / np.sqrt(4 / 45 / n)
        cross = max(abs((u[:, i] * u[:, j]).mean()) for i, j in ((0, 1), (0, 2), (1, 2))) / np.sqrt(1 / 15 / n)
        ctx.check(max(dev, dev2, cross) < 6.5, "no direction is preferred", mean=float(dev), second=float(dev2), cross=float(cross), n=n)
        ctx.ev("directions tested")
        # within a well-populated shell, particles fill its whole width
        for k in range(1, len(idx)):
            lo, hi = a[idx[k - 1]], a[idx[k]]
            t = (r[(r > lo) & (r <= hi)] - lo) / (hi - lo)
            if len(t) > 60:
                ctx.check(t.min() < .25 and t.max() > .75 and .25 < np.median(t) < .8, "shells are filled over their width", shell=k, n=len(t), lo=float(t.min()), hi=float(t.max()))
    # the same again, in other circumstances
    if rng.random() < .3:
        np.random.seed(state ^ 77)
        two = rng.random() < .25
        if two:
            pin(ctx, 3)
        try:
            o = cp.genHalo(tot, res, dict(own), profile, a, b, c)
        finally:
            pin(ctx)
        ctx.check(all(np.array_equal(p, r) for p, r in zip(o[:3], (x, y, z))) and o[3] == mp and o[4] == rho_s,
                  "a halo does not depend on the random state or the number of workers", workers=3 if two else 1)
        ctx.ev("several workers", two)
    ctx.sig(profile, nb, len(idx), int(np.log2(n)), const, round(float(q), 1), round(float(s), 1))
    if const and n > 1500 and rng.random() < .5:
        recovered(ctx, cp, X, mp, a, q, s, profile)


def recovered(ctx, cp, X, mp, a, q, s, profile):
    """The halo analysed by the package itself."""
    gen.internal_units()
    set_threads(2)
    o = cp.DensShapeProfs(X + 100, np.full(len(X), mp / 1e10), [np.arange(len(X))], np.array([a[-1]]), 0.0, "m", "viz", "nocat", MIN_NUMBER_PTCS=1, CENTER="com")
    with ctx.target("getShapeCatGlobal"):
        g = o.getShapeCatGlobal([0], dict(ROverR200=np.array([1.0]), IT_TOL=1e-2, IT_WALL=200, IT_MIN=10, REDUCED=True, SHELL_BASED=False))
    if g["is_conv"][0]:
        e = 8 / np.sqrt(len(X))
        ctx.check(abs(g["q"][0] - q) < e and abs(g["s"][0] - s) < e, "the package finds the shape asked for", q=float(g["q"][0]), s=float(g["s"][0]), asked=[float(q), float(s)],
                  n=len(X))
        if s < .7 * q:
            ctx.check(abs(g["minor"][0][2]) > .95, "the minor axis is along z", got=g["minor"][0])
        if q < .7:
            ctx.check(abs(g["major"][0][0]) > .95, "the major axis is along x", got=g["major"][0])


def ellipsoid(ctx, rng):
    import cosmic_profiles as cp
    dims = int(rng.choice([2, 3, 3]))
    k = int(rng.integers(1, 4))
    a = 10 ** rng.uniform(-1, 1, k)
    b = a * rng.uniform(.2, 1, k)
    c = a * rng.uniform(.1, 1, k) if dims == 3 else [None] * k
    N = rng.integers(0, 3000, k)
    e = int(rng.integers(k))
    ctx.describe(dims=dims, a=a, b=b, c=c, N=N, which=e)
    with ctx.target("drawUniformFromEllipsoid"):
        X, nb = cp.drawUniformFromEllipsoid(dims, a, b, c, N, e)
    if not ctx.check(nb == e and np.shape(X) == (N[e], dims), "ellipsoid: number of points", got=list(np.shape(X)), expected=[int(N[e]), dims]):
        return
    ax = np.array([a[e], b[e], c[e]][:dims], float)
    r = np.sqrt(((X / ax) ** 2).sum(1))
    ctx.check((r <= 1 + 1e-12).all(), "ellipsoid: points lie inside")
    n = int(N[e])
    ctx.sig("ell", dims, n // 300, e)
    if n >= 100:
        ctx.check(stats.kstest(r ** dims, "uniform").pvalue > 1e-9, "ellipsoid: points are uniform in volume", n=n)
        u = (X / ax) / r[:, None]
        var = {2: 1 / 8, 3: 4 / 45}[dims]
        dev = max(np.abs(u.mean(0)).max() / np.sqrt(1 / (dims * n)), np.abs((u ** 2).mean(0) - 1 / dims).max() / np.sqrt(var / n))
        ctx.check(dev < 6.5, "ellipsoid: no direction is preferred", dev=float(dev))
    np.random.seed(int(rng.integers(1000)))
    X2, _ = cp.drawUniformFromEllipsoid(dims, a, b, c, N, e)
    ctx.check(np.array_equal(X, X2), "ellipsoid: reproducible")


def membership(ctx, rng):
    from cosmic_profiles.common.python_routines import inShell, drawUniformFromShell
    k = int(rng.integers(1, 6))
    a = np.sort(rng.uniform(.1, 2, k)) + np.arange(k) * .05
    b, c = a * rng.uniform(.3, 1), a * rng.uniform(.1, 1)
    N = rng.integers(0, 200, k)
    ctx.describe(a=a, b=b, c=c, N=N)
    for s in range(k):
        with ctx.target("drawUniformFromShell"):
            Y = drawUniformFromShell(3, a, b, c, N, s)
        ctx.check(Y.shape == (N[s], 3), "shell: number of points")
        lo = 0 if s == 0 else a[s - 1]
        r = np.sqrt(((Y * [1, a[s] / b[s], a[s] / c[s]]) ** 2).sum(1))
        ctx.check(((r >= lo * (1 - 1e-12)) & (r <= a[s] * (1 + 1e-12))).all(), "shell: points lie in it")
        for p, rr in list(zip(Y, r))[:40]:
            for t in range(k):
                low = 0 if t == 0 else a[t - 1]
                if min(abs(rr - a[t]), abs(rr - low) if low else 1) < 1e-9:
                    continue
                ctx.check(inShell(p, a, b, c, t) == (low < rr <= a[t] or (t == 0 and rr <= a[0])), "shell: membership", r=float(rr), shell=t)
    ctx.sig("shell", k)
