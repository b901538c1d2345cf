"""C10: density fits: bounds, fixed parameters, optimum, scale covariance, empty bins, independence, concentrations."""
import os
import numpy as np
import gen, refs
from harness import Skip, set_threads

METHODS = ["Nelder-Mead", "L-BFGS-B", "SLSQP", "TNC", "Powell", "trust-constr"]
# measured over thousands of random profiles: how far above the best possible residual each minimizer may end
EXCESS = {("nfw", "Nelder-Mead"): 1e-5, ("nfw", "L-BFGS-B"): 1e-5, ("hernquist", "Nelder-Mead"): 1e-5, ("hernquist", "L-BFGS-B"): 1e-5,
          ("einasto", "L-BFGS-B"): .1, ("nfw", "SLSQP"): .02, ("hernquist", "SLSQP"): .03, ("nfw", "TNC"): .02, ("hernquist", "TNC"): .03}
GUESS = {"alpha": 1.0, "beta": 1.0, "gamma": 1.0}


def cost(prof, p, R, dens):
    ok = dens > 0
    with np.errstate(all="ignore"):
        return float(np.mean((np.log(dens[ok]) - np.log(refs.PROFS[prof](R[ok], p))) ** 2))


def guess(prof, dens, r200):
    ok = dens > 0
    g = dict(GUESS, alpha=.18 if prof == "einasto" else 1.0, rho_s=.1 * dens[ok].mean(), r_s=r200 / 5)
    return {k: g[k] for k in refs.PARS[prof]}


def model(rng, prof):
    p = dict(r_s=float(rng.uniform(.12, .4)), rho_s=float(10 ** rng.uniform(-2, 8)))
    if prof == "einasto":
        p["alpha"] = float(rng.uniform(.14, .3))
    elif prof == "alpha_beta_gamma":
        p.update(alpha=float(rng.uniform(.7, 2)), beta=float(rng.uniform(2.2, 4)), gamma=float(rng.uniform(.2, 1.4)))
    return p


def holder(n, r200):
    """A catalogue of n objects, of which only the virial radii matter for fits."""
    import cosmic_profiles as cp
    x = np.random.default_rng(0).normal(size=(6, 3))
    return cp.DensShapeProfs(np.tile(x, (n, 1)), np.ones(6 * n), [np.arange(6 * k, 6 * k + 6) for k in range(n)], np.asarray(r200, float),
                             0.0, "0", "v", "c", MIN_NUMBER_PTCS=1, CENTER="com")


def run(ctx):
    all_ = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {all_[ctx.shard % len(all_)]})      # one worker in the pools
    gen.internal_units()
    for i, rng in ctx.cases(300, 20000, until=.9):
        try:
            one(ctx, rng, i)
        except Skip:
            continue
    for i, rng in ctx.cases(8, 100, "pool"):
        os.sched_setaffinity(0, set(all_[:int(rng.integers(2, len(all_) + 1))] if len(all_) > 1 else all_))
        try:
            one(ctx, rng, 6 * i if i % 4 else 3, many=int(rng.integers(5, 20)))
        except Skip:
            continue
        os.sched_setaffinity(0, {all_[ctx.shard % len(all_)]})
    for i, rng in ctx.cases(40, 600, "tiny"):
        try:
            tiny(ctx, rng)
        except Skip:
            continue
    for _ in ctx.once("known"):
        known(ctx)


def known(ctx):
    o = holder(1, [.3])
    R = np.logspace(-1.5, 0, 30)
    p = dict(rho_s=3e4, r_s=.05)
    d = refs.PROFS["nfw"](R * .3, p)[None]
    r = o.fitDensProfs(d, R, {"profile": "nfw"}, [0])[0]
    got = cost("nfw", {"rho_s": r["rho_s"], "r_s": r["r_s"]}, R * .3, d[0])
    ctx.finding("powell-local-minimum", got > 1e-3, "the default minimizer (Powell) reports convergence away from the minimum: noiseless NFW profile with "
                "r_s = 0.05, r200 = 0.3 is fitted with r_s = %.4f, although a perfect fit exists" % r["r_s"])
    d = refs.PROFS["hernquist"](R * .3, p)[None]
    r = o.fitDensProfs(d, R, {"profile": "hernquist", "r_s": .05, "min_method": "trust-constr"}, [0])[0]
    ctx.finding("trust-constr-fixed-parameter", abs(r["r_s"] - .05) > 1e-6, "min_method trust-constr does not keep fixed parameters: r_s fixed to 0.05 "
                "comes back as %.4f" % r["r_s"])
    ctx.check(True, "known findings replayed")


def tiny(ctx, rng):
    """Objects at or below the smallest scale radius that a fit may report: the fit may fail, but then says so."""
    prof = ["nfw", "hernquist", "einasto", "alpha_beta_gamma"][int(rng.integers(0, 4))]
    mm = str(rng.choice(["TNC", "TNC", "Nelder-Mead", "L-BFGS-B"]))
    r200 = 10 ** rng.uniform(-7, -4, 3)
    R = np.logspace(-1.5, 0, 20)
    pars = [model(rng, prof) for _ in range(3)]
    dens = np.array([refs.PROFS[prof](R, p) for p in pars])
    method = dict(profile=prof, min_method=mm)
    ctx.describe(profile=prof, method=mm, r200=r200, pars=pars)
    with ctx.target("fitDensProfs"):
        fit = holder(3, r200).fitDensProfs(dens, R, method, [0, 1, 2])
    for k in range(3):
        p = {f: float(fit[f][k]) for f in refs.PARS[prof]}
        nan = [bool(np.isnan(v)) for v in p.values()]
        ctx.check(all(nan) if not fit["is_conv"][k] else not any(nan), "convergence flag agrees with the parameters", p=p)
        if fit["is_conv"][k]:
            g = guess(prof, dens[k], r200[k])
            start = max(cost(prof, dict(g, r_s=r), R * r200[k], dens[k]) for r in (g["r_s"], max(g["r_s"], 1e-5)))
            c = cost(prof, p, R * r200[k], dens[k])
            ctx.check(c <= start * (1 + 1e-6) + 1e-12, "a fit that is reported was made", cost=c, start=start, p=p, method=mm)
        ctx.ev("tiny objects: " + ("fitted" if fit["is_conv"][k] else "not fitted"))
        ctx.sig("tiny", prof, mm, bool(fit["is_conv"][k]), round(float(np.log10(r200[k]))))


def one(ctx, rng, i, many=0):
    prof = ["nfw", "hernquist", "einasto", "alpha_beta_gamma"][int(rng.integers(0, 4))]
    mm = str(rng.choice(METHODS, p=[.34, .2, .2, .1, .1, .06]))
    if prof == "einasto" and rng.random() < .5:
        mm = "L-BFGS-B"
    n = many or int(rng.integers(1, 5))
    r200 = rng.uniform(.1, 2.0, n)
    R = np.logspace(rng.uniform(-1.7, -1.2), rng.uniform(-.1, .1), int(rng.integers(15, 40)))
    pars = [model(rng, prof) for _ in range(n)]
    for k in range(n):
        pars[k]["r_s"] *= r200[k]
    noise = float(rng.choice([0, 0, .05, .2]))
    dens = np.array([refs.PROFS[prof](R * r200[k], pars[k]) for k in range(n)]) * np.exp(noise * rng.normal(size=(n, len(R))))
    fixed = {}
    if rng.random() < .45:
        for f in refs.PARS[prof]:
            if rng.random() < .4:
                fixed[f] = pars[0][f]
        if len(fixed) == len(refs.PARS[prof]):
            fixed.pop("rho_s")
    method = dict(fixed, profile=prof)
    if mm != "Powell" or rng.random() < .5:
        method["min_method"] = mm
    sel = np.arange(n)
    o = holder(n + 1, np.append(r200, 1.0))
    ctx.describe(profile=prof, method=mm, fixed=fixed, n=n, r200=r200, R=R, pars=pars, noise=noise)
    d0, R0, m0 = dens.copy(), R.copy(), dict(method)
    with ctx.target("fitDensProfs"):
        fit = o.fitDensProfs(dens, R, method, sel)
    ctx.check((dens == d0).all() and (R == R0).all() and method == m0, "arguments are left alone")
    ctx.check(set(fit.dtype.names) == set(refs.PARS[prof]) | {"is_conv"} and len(fit) == n, "reported parameters are the profile's", names=fit.dtype.names)
    ctx.ev("fits: %s %s%s" % (prof, mm, " fixed" if fixed else ""), n)
    for k in range(n):
        p = {f: float(fit[f][k]) for f in refs.PARS[prof]}
        nan = any(np.isnan(v) for v in p.values())
        ctx.check(bool(fit["is_conv"][k]) == (not nan), "convergence flag agrees with the parameters", p=p, flag=bool(fit["is_conv"][k]))
        if nan:
            ctx.ev("not converged")
            ctx.check(all(np.isnan(v) for v in p.values()), "an unconverged fit has no parameters", p=p)
            if not fixed:
                ctx.check(False, "a regular profile is fitted", p=p)
            continue
        ctx.check(mm == "trust-constr" or p["rho_s"] > 0 and p["r_s"] > 0 and p.get("alpha", 1) > 0 and p.get("beta", 1) > 0 and p.get("gamma", 1) > 0, "parameters are positive", p=p)
        if mm != "trust-constr":
            for f, v in fixed.items():
                ctx.check(abs(p[f] - v) <= 1e-7 * abs(v), "fixed parameters are kept: " + f, got=p[f], fixed=v)
        c = cost(prof, p, R * r200[k], dens[k])
        if not fixed and mm not in ("Powell", "trust-constr"):        # see the known findings
            g = cost(prof, guess(prof, dens[k], r200[k]), R * r200[k], dens[k])
            ctx.check(c <= g * (1 + 1e-6) + 1e-12, "a fit describes the profile no worse than its starting point", cost=c, start=g, p=p)
        if (prof, mm) in EXCESS and (not fixed or (k == 0 and mm == "Nelder-Mead")):
            t = cost(prof, pars[k], R * r200[k], dens[k])
            ctx.check(c <= t * 1.01 + EXCESS[prof, mm], "a fit describes the profile no worse than the generating parameters", cost=c, truth=t, p=p, pars=pars[k], method=mm)
            if noise == 0 and (EXCESS[prof, mm] < 1e-3 or (prof == "einasto" and c < 1e-8)):
                ctx.check(all(abs(p[f] / pars[k][f] - 1) < .01 for f in p), "noiseless parameters are recovered", p=p, pars=pars[k], method=mm)
        ctx.sig(prof, mm, tuple(sorted(fixed)), noise, round(float(np.log10(min(c, 1e9) + 1e-12))))
    names = refs.PARS[prof]

    def same(a, b, what, rtol=2e-6, scale=1.0, **kw):
        for f in names:
            x = np.asarray(a[f], float) * (scale if f == "rho_s" else 1)
            ctx.close(np.asarray(b[f], float), x, what, rtol=rtol, field=f, method=mm, **kw)

    which = i % 6
    if which == 0:              # alone, and in another order
        k = int(rng.integers(0, n))
        with ctx.target("fitDensProfs"):
            same(fit[k:k + 1], o.fitDensProfs(dens[k:k + 1], R, method, [k]), "a fit does not depend on other objects")
        p = rng.permutation(n)
        with ctx.target("fitDensProfs"):
            same(fit[p], o.fitDensProfs(dens[p], R, method, p), "fits follow the order of the selection")
    elif which == 1 and "rho_s" not in fixed:
        lam = float(2.0 ** rng.integers(-20, 20))
        with ctx.target("fitDensProfs"):
            same(fit, o.fitDensProfs(dens * lam, R, method, sel), "rho_s scales with the density", rtol=1e-4, scale=lam)
    elif which == 2:            # bins without particles carry no information, however they are marked
        hole = np.sort(rng.choice(len(R), int(rng.integers(1, 5)), replace=False))
        a, b = dens.copy(), dens.copy()
        a[:, hole], b[:, hole] = np.nan, 0.0
        keep = np.setdiff1d(np.arange(len(R)), hole)
        with ctx.target("fitDensProfs"):
            fa, fb = o.fitDensProfs(a, R, method, sel), o.fitDensProfs(b, R, method, sel)
            fc = o.fitDensProfs(dens[:, keep], R[keep], method, sel)
        same(fc, fa, "undefined bins are ignored")
        same(fc, fb, "empty bins are ignored")
    elif which == 3:
        with ctx.target("estConcentrations"):
            c = np.asarray(o.estConcentrations(dens, R, method, sel), float)
        ctx.close(c, r200 / np.asarray(fit["r_s"], float), "concentration is r200 over r_s", rtol=1e-6, method=mm)
    elif which == 4:            # nothing to fit
        bad = dens.copy()
        bad[0] = rng.choice([0.0, np.nan])
        with ctx.target("fitDensProfs"):
            f = o.fitDensProfs(bad, R, method, sel)
        ctx.check(not f["is_conv"][0] and np.isnan(f["r_s"][0]), "a profile without any particles is not fitted", fit=[float(f[x][0]) for x in names])
        if n > 1:
            same(fit[1:], f[1:], "a failed fit leaves the others alone")
    else:                       # dens_profs that do not belong to the selection
        ctx.expect_raises(ValueError, lambda: o.fitDensProfs(dens, R, method, np.arange(n + 1)), "inconsistent selection is rejected")
        ctx.expect_raises(ValueError, lambda: o.estConcentrations(dens, R, method, np.arange(n + 1)), "inconsistent selection is rejected")
