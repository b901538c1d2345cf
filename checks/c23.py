"""C23: mass bins, averages with errors, and tests of independence are what they are defined to be."""
import numpy as np
from harness import Skip


def run(ctx):
    for what, quick, thorough in ((split, 1200, 80000), (averages, 500, 30000), (tests, 1000, 60000), (curves, 150, 8000)):
        for i, rng in ctx.cases(quick, thorough, what.__name__):
            try:
                what(ctx, rng, i)
            except Skip:
                continue


def split(ctx, rng, i):
    from cosmic_profiles.common.cosmo_tools import M_split
    n, nb = int(rng.integers(1, 40)), int(rng.integers(1, 12))
    m = 10 ** rng.uniform(8, 15, n)
    if rng.random() < .3:
        m = rng.choice(m, n)                # equal masses
    c, v = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
    withv = rng.random() < .4
    ctx.describe(n=n, bins=nb, vectors=withv)
    m0, c0 = m.copy(), c.copy()
    with ctx.target("M_split"):
        r = M_split(m, c, 0.0, v=v, NB_BINS=nb) if withv else M_split(m, c, 0.0, NB_BINS=nb)
    ctx.check((m == m0).all() and (c == c0).all(), "splitting changes nothing")
    edges, mg, cg, idx = r[0], r[1], r[2], r[-1]
    flat = [int(k) for g in idx for k in g]
    ctx.check(sorted(flat) == list(range(n)), "every object is in one mass bin", idx=idx, n=n)
    if sorted(flat) != list(range(n)):
        raise Skip()
    size = -(-n // nb)
    ctx.check(len(idx) <= nb and all(len(g) == size for g in idx[:-1]) and 0 < len(idx[-1]) <= size, "mass bins are equally filled", sizes=[len(g) for g in idx], bins=nb)
    ctx.check(len(edges) == len(idx) + 1 and all(a <= b for a, b in zip(edges[:-1], edges[1:])), "edges are in order", edges=edges)
    for k, g in enumerate(idx):
        ctx.check(all(edges[k] <= m[j] <= edges[k + 1] for j in g), "the masses of a bin lie within its edges", edges=edges[k:k + 2], masses=m[g])
        ctx.check(len(mg[k]) == len(g) and np.array_equal(np.asarray(mg[k]), m[g]), "a bin has the masses of its objects", got=mg[k], want=m[g])
        ctx.check(np.array_equal(np.asarray(cg[k]), c[g]), "a bin has the centres of its objects", bin=k)
        if withv:
            ctx.check(np.array_equal(np.asarray(r[3][k]), v[g]), "a bin has the vectors of its objects", bin=k)
    ctx.check(edges[0] == m.min() and edges[-1] == m.max(), "the edges span all masses", edges=edges)
    ctx.sig("split", n, nb, withv, len(np.unique(m)) < n)


def averages(ctx, rng, i):
    from cosmic_profiles.common.cosmo_tools import getMeanOrMedianAndError as f
    how = ["median_quantile", "SEM", "bootstrap"][i % 3]
    k = int(rng.integers(1, 10))
    big = 60 if rng.random() < .9 else 1000 if how == "bootstrap" else 4000
    y = [list(rng.normal(size=int(rng.integers(0 if how == "median_quantile" else 2, big))) * 10 ** rng.uniform(-2, 2) + rng.normal() * 5) for _ in range(k)]
    if how == "SEM" and rng.random() < .3:
        y[0] = []
    reals = int(rng.integers(60, 120))
    ctx.describe(how=how, sizes=[len(v) for v in y])
    keep = [list(v) for v in y]
    with ctx.target("getMeanOrMedianAndError"):
        a, lo, hi = f(y, how, reals)
        again = f(y, how, reals)
    ctx.check(keep == y, "averaging changes nothing")
    for p, q in zip((a, lo, hi), again):
        ctx.close(p, q, "averages are reproducible", rtol=0)
    for j, v in enumerate(y):
        if not v:
            ctx.check(np.isnan(a[j]), "the average of nothing is undefined", got=a[j])
            continue
        n = len(v)
        if how == "median_quantile":
            ctx.close(a[j], np.sort(v)[[(n - 1) // 2, n // 2]].mean(), "median", rtol=1e-12, atol=1e-14)
            s, pos = np.sort(v), (n - 1) * np.array([.25, .75])
            q = s[np.floor(pos).astype(int)] + (pos % 1) * (s[np.ceil(pos).astype(int)] - s[np.floor(pos).astype(int)])
            ctx.close([lo[j], hi[j]], q / np.sqrt(n), "quartiles over the root of the number", rtol=1e-9, atol=1e-12 * np.abs(v).max())
        else:
            sc = np.abs(v).max()
            mean = sum(v) / n
            ctx.close(a[j], mean, "mean", rtol=1e-9, atol=1e-12 * sc)
            sem = np.sqrt(sum((t - mean) ** 2 for t in v) / (n - 1) / n)
            if how == "SEM":
                ctx.close([lo[j], hi[j]], [sem, sem], "error of the mean", rtol=1e-9)
            else:
                ctx.check(lo[j] == hi[j] and sem * np.sqrt((n - 1) / n) * .55 < lo[j] < sem * 1.6, "bootstrapped error of the mean", got=lo[j], sem=sem, n=n, reals=reals)
    ctx.sig(how, tuple(len(v) for v in y))


def tests(ctx, rng, i):
    from scipy import stats
    from cosmic_profiles.common.cosmo_tools import chiSquareToICore, KSTest
    if i % 2:
        t = rng.poisson(10 ** rng.uniform(-.5, 2), (int(rng.integers(2, 5)), int(rng.integers(2, 12)))).astype(float)
        if rng.random() < .3:
            t *= rng.uniform(.1, 3)
        if rng.random() < .3:
            t[0] = t[1]
        if rng.random() < .05:
            t[:] = 0
        ctx.describe(table=t)
        with ctx.target("chiSquareToICore"):
            c, p, dof = chiSquareToICore(t)
        if t.sum() == 0:
            ctx.check(np.isnan(c) and np.isnan(p) and np.isnan(dof), "an empty table has no chi square", got=[c, p, dof])
            return
        rows, cols = t.sum(1) > 0, t.sum(0) > 0
        u = t[rows][:, cols]
        want = ((u - np.outer(u.sum(1), u.sum(0)) / u.sum()) ** 2 / (np.outer(u.sum(1), u.sum(0)) / u.sum())).sum()
        ctx.close(c, want, "chi square of a table", rtol=1e-9, atol=1e-9)
        if rows.all() and cols.all():
            ctx.check(dof == (t.shape[0] - 1) * (t.shape[1] - 1), "degrees of freedom", dof=dof, shape=t.shape)
            ctx.close(p, stats.chi2.sf(want, dof), "probability of chi square", rtol=1e-6, atol=1e-12)
        if rng.random() < .5:
            a, b = rng.permutation(t.shape[0]), rng.permutation(t.shape[1])
            ctx.close(chiSquareToICore(t[a][:, b]), (c, p, dof), "the order of rows and columns does not matter", rtol=1e-9, atol=1e-9)
        ctx.sig("chi", t.shape, bool(rows.all() and cols.all()), round(float(p), 1))
    else:
        a, b = [np.round(rng.normal(size=int(rng.integers(0, 60))) + d, int(rng.choice([1, 8]))) for d in (0, rng.choice([0, .7]))]
        ctx.describe(a=a, b=b)
        with ctx.target("KSTest"):
            s, p = KSTest(list(a), b) if rng.random() < .5 else KSTest(a, list(b))
        if len(a) == 0 or len(b) == 0:
            ctx.check(np.isnan(s) and np.isnan(p), "no test without data", got=[s, p])
            return
        z = np.concatenate([a, b])
        d = max(abs((a <= t).mean() - (b <= t).mean()) for t in z)
        ctx.close(s, d, "distance between two samples", rtol=1e-9, atol=1e-12)
        ctx.check(0 <= p <= 1, "a probability", p=p)
        ctx.close(KSTest(b, a), (s, p), "the order of the samples does not matter", rtol=1e-7, atol=1e-9)
        ctx.sig("ks", len(a), len(b), round(float(p), 1))


def curves(ctx, rng, i):
    """Profiles of two populations: counted per radius and value."""
    from cosmic_profiles.common.cosmo_tools import chiSquareToIMultiDim, chiSquareToIShapeCurve, chiSquareToICore
    k = int(rng.integers(1, 6))
    x, y = [[list(rng.uniform(0, 1, int(rng.integers(0, 30)))) for _ in range(k)] for _ in range(2)]
    t = np.zeros((2, k * 10))
    for r, z in enumerate((x, y)):
        for j, v in enumerate(z):
            for a in v:
                t[r, 10 * j + int(np.floor(a * 9 + .5))] += 1
    ctx.describe(k=k)
    with ctx.target("chiSquareToIMultiDim"):
        got = chiSquareToIMultiDim(x, y)
    ctx.close(got, chiSquareToICore(t), "every value is counted once, at its radius", rtol=1e-9, atol=1e-9)
    nb = int(rng.integers(3, 9))
    lo, hi = -float(rng.uniform(.5, 2)), 0.0
    if rng.random() < .5:       # radii beyond R200, which is one of them
        beyond, step = int(rng.integers(1, nb)), float(rng.choice([.1, .15, .2, .25, .3, rng.uniform(.05, .5)]))
        lo, hi = -(nb - beyond) * step, beyond * step
    ctx.describe(k=k, nb=nb, lo=lo, hi=hi)
    R = np.logspace(lo, hi, nb + 1)
    data = []
    for _ in range(2):
        n = int(rng.integers(1, 8))
        r2 = 10 ** rng.uniform(-1, 1, n)
        p = rng.uniform(.1, .95, (n, nb + 1))
        p[rng.random(p.shape) < .15] = np.nan
        data.append((r2[:, None] * R[None], p))
    (da, pa), (db, pb) = data
    with ctx.target("chiSquareToIShapeCurve"):
        got = chiSquareToIShapeCurve(da, pa, db, pb, lo, hi, nb)
    col = lambda p: [list(c[~np.isnan(c)]) for c in p.T]
    ctx.close(got, chiSquareToIMultiDim(col(pa), col(pb)), "profiles are compared at equal radii", rtol=1e-9, atol=1e-9, lo=lo, hi=hi)
    ctx.sig("curves", k, nb, len(pa), len(pb), hi > 0)
