"""C22: density models, cosmology, sphere and ellipsoid points, and labels obey their definitions everywhere."""
import numpy as np
import figs                                                     # noqa: F401 (no display)
from harness import Skip

c21 = None


def run(ctx):
    global c21
    from harness import load
    c21 = load("c21")
    for what, quick, thorough in ((models, 6000, 120000), (cosmology, 1500, 30000), (points, 1000, 20000), (labels, 1500, 40000)):
        for i, rng in ctx.cases(quick, thorough, what.__name__):
            try:
                what(ctx, rng, i)
            except Skip:
                continue


def models(ctx, rng, i):
    import cosmic_profiles as cp
    rho, rs = 10 ** rng.uniform(-5, 20), 10 ** rng.uniform(-4, 3)
    n = int(rng.integers(1, 40))
    x = 10 ** rng.uniform(-3, 3, n)
    a, b, g = rng.uniform(.2, 4), rng.uniform(1.5, 6), rng.uniform(0, 2)
    al = rng.uniform(.05, 1.2)
    r = x * rs
    scalar = rng.random() < .2
    if scalar:
        r, x = float(r[0]), float(x[0])
    ctx.describe(rho=rho, rs=rs, abg=[a, b, g], alpha=al, n=n)
    par = dict(rho_s=rho, r_s=rs)
    with ctx.target("density models"):
        nfw, her = cp.getNFWProf(r, par), cp.getHernquistProf(r, par)
        abg = cp.getAlphaBetaGammaProf(r, dict(par, alpha=a, beta=b, gamma=g))
        ein = cp.getEinastoProf(r, dict(par, alpha=al))
        as_nfw = cp.getAlphaBetaGammaProf(r, dict(par, alpha=1., beta=3., gamma=1.))
        as_her = cp.getAlphaBetaGammaProf(r, dict(par, alpha=1., beta=4., gamma=1.))
        at = cp.getEinastoProf(rs, dict(par, alpha=al)), cp.getNFWProf(rs, par), cp.getHernquistProf(rs, par), cp.getAlphaBetaGammaProf(rs, dict(par, alpha=a, beta=b, gamma=g))
    k = np.log
    ctx.close(k(nfw), k(rho) - k(x) - 2 * k(1 + x), "NFW density", rtol=1e-10, atol=1e-10)
    ctx.close(k(her), k(rho) - k(x) - 3 * k(1 + x), "Hernquist density", rtol=1e-10, atol=1e-10)
    ctx.close(k(abg), k(rho) - g * k(x) - (b - g) / a * np.logaddexp(0, a * k(x)), "alpha-beta-gamma density", rtol=1e-9, atol=1e-8)
    with np.errstate(all="ignore"):
        le, ref = k(ein), k(rho) - 2 / al * (np.exp(al * k(x)) - 1)
    ok = np.atleast_1d(ref) > -600         # below, the density is not a normal number any more
    ctx.close(np.atleast_1d(le)[ok], np.atleast_1d(ref)[ok], "Einasto density", rtol=1e-9, atol=1e-9)
    ctx.close(as_nfw, nfw, "an alpha-beta-gamma model of (1,3,1) is NFW", rtol=1e-10)
    ctx.close(as_her, her, "an alpha-beta-gamma model of (1,4,1) is Hernquist", rtol=1e-10)
    ctx.close(at, [rho, rho / 4, rho / 8, rho / 2 ** ((b - g) / a)], "density at the scale radius", rtol=1e-10)
    # the slope of Einasto is -2 at the scale radius
    h = 1e-4
    s = (k(cp.getEinastoProf(rs * np.exp(h), dict(par, alpha=al))) - k(cp.getEinastoProf(rs * np.exp(-h), dict(par, alpha=al)))) / (2 * h)
    ctx.close(s, -2, "the slope of an Einasto model is -2 at the scale radius", rtol=1e-6)
    ctx.check(np.shape(nfw) == np.shape(r) == np.shape(ein) == np.shape(abg) == np.shape(her), "densities come at the radii given")
    ctx.sig("models", n, scalar, round(a), round(b), round(al, 1))


def cosmology(ctx, rng, i):
    import cosmic_profiles as cp
    N, L = int(rng.integers(8, 4096)), 10 ** rng.uniform(-1, 3.5)
    z, om = rng.uniform(0, 20), rng.uniform(.05, 1)
    ol = 1 - om if rng.random() < .6 else rng.uniform(0, 1)
    ctx.describe(N=N, L=L, z=z, om=om, ol=ol)
    with ctx.target("cosmology"):
        rc, m, d = cp.getRhoCrit(), cp.getMassDMParticle(N, L), cp.getDelta(z, om, ol)
    ctx.close(rc, 2.7754e11, "critical density", rtol=1.2e-2)         # M_sun h^2 / Mpc^3, to the accuracy of the constants
    ctx.close(m * N ** 3, rc * L ** 3, "the particles make up the mass of the box", rtol=1e-10)
    o = om * (1 + z) ** 3 / (om * (1 + z) ** 3 + ol)
    ctx.close(d, (18 * np.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2) / o - 1, "virial overdensity", rtol=1e-9)
    ctx.close(cp.getDelta(z, om, 0.0), 18 * np.pi ** 2 - 1, "virial overdensity without dark energy", rtol=1e-9)
    ctx.sig("cosmology", round(z), round(om, 1))


def points(ctx, rng, i):
    import cosmic_profiles as cp
    n = int(rng.choice([1, 2, 3, 10, 50, 200, 500, 1000]))
    a, b, c = 10 ** rng.uniform(-4, 4, 3)
    ctx.describe(n=n, axes=[a, b, c])
    with ctx.target("fibonacci points"):
        s, e = np.array(cp.fibonacci_sphere(n)), np.array(cp.fibonacci_ellipsoid(a, b, c, n))
    ctx.check(s.shape == (n, 3) == e.shape, "as many points as asked for", shapes=[s.shape, e.shape], n=n)
    ctx.close((s ** 2).sum(1), np.ones(n), "points lie on the sphere", rtol=1e-9)
    ctx.close(((e / [a, b, c]) ** 2).sum(1), np.ones(n), "points lie on the ellipsoid", rtol=1e-9)
    ctx.close(e / [a, b, c], s, "the ellipsoid is the stretched sphere", rtol=1e-9, atol=1e-9)
    if n >= 50:     # evenly: no direction is far from a point, no two points are close
        u = rng.normal(size=(200, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        gap = np.arccos(np.clip(u @ s.T, -1, 1)).min(1).max()
        ctx.check(gap < 3.3 / np.sqrt(n), "points cover the sphere", gap=gap, n=n)
        dist = np.linalg.norm(s[:, None] - s[None], axis=2) + 9 * np.eye(n)
        ctx.check(dist.min() > 1.5 / np.sqrt(n), "points are apart", nearest=dist.min(), n=n)
        ctx.check(np.abs(s.mean(0)).max() < 4.0 / n, "points are balanced", mean=s.mean(0))
    if i % 5 == 0:
        axes3d(ctx, rng, cp)
    ctx.sig("points", n, round(float(np.log10(a / b))), round(float(np.log10(b / c))))


def axes3d(ctx, rng, cp):
    import matplotlib.pyplot as plt
    lo = rng.normal(size=3) * 10 ** rng.uniform(-3, 5)
    w = 10 ** rng.uniform(-2, 3, 3)
    fig = plt.figure()
    ax = fig.add_subplot(projection="3d")
    ax.set_xlim3d(lo[0], lo[0] + w[0]), ax.set_ylim3d(lo[1], lo[1] + w[1]), ax.set_zlim3d(lo[2], lo[2] + w[2])
    was = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
    with ctx.target("set_axes_equal"):
        cp.set_axes_equal(ax)
    now = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
    plt.close(fig)
    sz = np.ptp(was, axis=1).max()
    ctx.close(now.mean(1), was.mean(1), "equal axes keep their centre", rtol=1e-9, atol=1e-9 * (sz + np.abs(lo).max()))
    ctx.close(np.ptp(now, axis=1), np.ptp(now, axis=1).max() * np.ones(3), "equal axes have one length", rtol=1e-6, atol=1e-8 * np.abs(lo).max())
    # matplotlib may widen a view by 1/48 on each side
    ctx.check((np.ptp(now, axis=1) >= sz * (1 - 1e-6)).all() and (np.ptp(now, axis=1) <= sz * 1.1 + 1e-8 * np.abs(lo).max()).all(), "equal axes show everything", now=now, was=was)


def labels(ctx, rng, i):
    import cosmic_profiles as cp
    e = i % 40 - 20 if i < 40 else int(rng.integers(-19, 20))
    if e == -20:
        e = 0
    m = float(rng.choice([1, 1, 2, 9.99, 1.01, 1.10, 9.5, rng.uniform(1, 9.99)]))
    st = ("%.2f" % m) + str(rng.choice(["E", "e"])) + "%+03d" % e
    ctx.describe(text=st)
    with ctx.target("eTo10"):
        out = cp.eTo10(st)
    try:
        v = c21.number(out)
    except Exception as ex:
        ctx.check(False, "the label is a number", text=st, label=out, error=repr(ex))
        return
    ctx.close(v, float(st), "the label shows the number", rtol=1e-9, text=st, label=out)
    ctx.check("e" not in out.lower(), "the label is written with powers of ten", text=st, label=out)
    ctx.sig("label", st[:2], e)
