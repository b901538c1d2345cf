"""C25: the kernels exported to Cython code compute what they document. Oracle: the definitions in numpy."""
import os, sys
import numpy as np
from harness import Skip
import gen

EPS = 2.3e-16


def probe(name):
    d = os.environ["VERIF_PROBES"]
    if d not in sys.path:
        sys.path.insert(0, d)
    if os.path.exists(os.path.join(d, name + ".failed")):
        return None
    return __import__(name)


def run(ctx):
    import cosmic_profiles  # noqa: F401
    P = {n: probe(n) for n in ("vp_points", "vp_tensor", "vp_sph", "vp_ell", "vp_kernel")}
    for n, m in P.items():
        if m is None:
            ctx.undec("kernels of %s cannot be reached in this tree" % n)
    for fn, name, k in ((points, "vp_points", 4000), (tensor, "vp_tensor", 3000), (eig, "vp_tensor", 3000), (sph, "vp_sph", 3000), (ell, "vp_ell", 2000), (kernel, "vp_kernel", 1500)):
        for i, rng in ctx.cases(k, k * 40, fn.__name__):
            if P[name] is None:
                ctx.ev("out of reach")
                continue
            try:
                fn(ctx, rng, P[name])
            except Skip:
                continue


def cloud(rng):
    """Points with masses; half of the time on a lattice, where squares and sums are exact and edges are hit."""
    n = int(rng.choice([1, 2, 3, 5, 10, 30, 100, 400]))
    lattice = rng.random() < .4
    if lattice:
        x = rng.integers(-6, 7, (n, 3)).astype(float)
        c = rng.integers(-3, 4, 3).astype(float)
        m = 2. ** rng.integers(-3, 4, n)
    else:
        x = rng.normal(size=(n, 3)) * 10 ** rng.uniform(-3, 3, 1 if rng.random() < .5 else 3)
        c = x.mean(0) + rng.normal(size=3) * x.std() * .3 if rng.random() < .7 else rng.normal(size=3)
        if rng.random() < .3:
            off = rng.normal(size=3) * 10 ** rng.uniform(-1, 3)
            x, c = x + off, c + off
        m = 10 ** rng.uniform(-4, 4) * (np.ones(n) if rng.random() < .4 else 10 ** rng.uniform(-2, 2, n))
    if rng.random() < .1 and n > 2:
        m[rng.integers(0, n)] = 0.0
    if rng.random() < .15:           # views with strides, as callers pass them
        x = np.ascontiguousarray(np.concatenate([x, x], 1))[:, :3]
        m = np.repeat(m, 2)[::2]
    return lattice, x, c, m


def kept(ctx, what, pairs):
    for a, b in pairs:
        ctx.check(np.array_equal(a, b, equal_nan=True), what + " leaves its input alone")


def points(ctx, rng, P):
    lat, x, c, m = cloud(rng)
    if m.sum() == 0:
        m[:] = 1.0
    n = len(x)
    ctx.describe(n=n, lattice=lat, x=x, m=m)
    x0, m0 = x.copy(), m.copy()
    out = np.full(3, rng.normal())
    with ctx.target("calcCoM"):
        got = np.array(P.com(x, m, out))
    s = np.abs(x).max() + 1e-300
    ctx.close(got, (m[:, None] * x).sum(0) / m.sum(), "centre of mass", rtol=0, atol=4 * n * EPS * s)
    kept(ctx, "centre of mass", ((x, x0), (m, m0)))
    with ctx.target("calcLocalSpread"):
        sp = P.spread(x)
    ref = np.linalg.norm(x - x.mean(0), axis=1).mean()
    ctx.close(sp, ref, "spread is the mean distance from the mean", rtol=1e-5, atol=20 * n * EPS * s)
    y = np.repeat(x[:1], n, 0)
    with ctx.target("calcLocalSpread"):
        ctx.check(P.spread(y) == 0.0, "coincident points have no spread", n=n, x=y[0])
    if n > 1:
        y[rng.integers(0, n)] *= 1 + 1e-9
        if np.ptp(y, axis=0).max() > 0:
            with ctx.target("calcLocalSpread"):
                ctx.check(P.spread(y) > 0.0, "points that differ have a spread", n=n, x=y[:2])
    v = np.float32(rng.normal() * 10 ** rng.uniform(-20, 20)) if rng.random() < .9 else np.float32(0)
    with ctx.target("cython_abs"):
        ctx.check(P.magnitude(v) == abs(float(v)), "magnitude", v=float(v))
    L = 0.0 if rng.random() < .15 else float(2 ** rng.integers(1, 5)) if lat else s * 10 ** rng.uniform(-.3, 1.5)
    z = (c + (rng.random((n, 3)) * 2.9 - 1.45) * L) if L and not lat else x.copy()
    z0 = z.copy()
    with ctx.target("respectPBCNoRef"):
        got = np.array(P.wrap(z, c, L))
    d = z0 - c
    ref = z0 if L == 0 else z0 - L * (d > L / 2) + L * (d < -L / 2)
    if L and not lat and (np.abs(np.abs(d) - L / 2) < 1e-12 * (np.abs(z0).max() + L)).any():
        ctx.undec("at half a box")
    else:
        ctx.close(got, ref, "wrapped by one box towards the centre", rtol=1e-15, atol=4 * EPS * (np.abs(z0).max() + L))
        ctx.check(np.array_equal(got, z), "wrapped in place")
    ctx.sig("points", n, lat, L > 0, int(np.sum(ref != z0)) * 4 // (3 * n))


def tensor(ctx, rng, P):
    lat, x, c, m = cloud(rng)
    n = len(x)
    k = int(rng.integers(0, n + 1)) if rng.random() < .8 else n
    sel = np.int32(rng.permutation(n))
    mk = m[sel[:k]]
    if mk.sum() == 0:
        return
    red = bool(rng.random() < .5)
    r = np.linalg.norm((x - c) / np.array([1, 10 ** rng.uniform(-1, 0), 10 ** rng.uniform(-1, 0)]), axis=1)
    ctx.describe(n=n, k=k, reduced=red, x=x, c=c, m=m)
    x0, m0, c0, s0, r0 = x.copy(), m.copy(), c.copy(), sel.copy(), r.copy()
    out = np.asfortranarray(rng.normal(size=(3, 3)) + 0j)
    with ctx.target("calcShapeTensor"):
        got = np.array(P.plain(x, sel, out, m, c, k) if not red and rng.random() < .5 else P.tensor(x, sel, out, m, c, k, red, r))
    y = x[sel[:k]] - c
    w = mk / mk.sum()
    if red:
        rk = r[sel[:k]]
        w = np.where(rk > 0, w / np.where(rk > 0, rk, 1) ** 2, 0)
    T = np.einsum("i,ij,ik->jk", w, y, y)
    scale = np.einsum("i,ij,ik->jk", w, np.abs(y), np.abs(y)).max() + 1e-300
    cond = 1 + (np.abs(x).max() * EPS * 50 / (np.abs(y).max() + 1e-300)) * 1e6
    ctx.close(got.real, T, "shape tensor", rtol=(1e-6 + 1.3e-7 * k) * cond, atol=3e-7 * scale * cond)     # the total mass is summed in single precision
    ctx.check((got.imag == 0).all(), "shape tensor is real")
    ctx.check(np.array_equal(got, got.T), "shape tensor is symmetric")
    kept(ctx, "shape tensor", ((x, x0), (m, m0), (c, c0), (sel, s0), (r, r0)))
    ctx.sig("tensor", n, k * 4 // n, red, lat)


def eig(ctx, rng, P):
    n = int(rng.choice([1, 2, 3, 3, 3, 3, 4, 6]))
    A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) * (rng.random() < .5)
    kind = int(rng.integers(0, 5))
    if kind == 0:
        H = A + A.conj().T
    elif kind == 1:
        H = A @ A.conj().T
    elif kind == 2:                  # equal eigenvalues
        Q = np.linalg.qr(A)[0]
        H = (Q * rng.choice([1., 1., 2., 0.], n)) @ Q.conj().T
    elif kind == 3:
        H = np.diag(rng.choice([0., 1., 2., 1e-12], n)).astype(complex)
    else:
        Q = np.linalg.qr(A)[0]
        H = (Q * 10 ** rng.uniform(-14, 0, n)) @ Q.conj().T
    H = (H + H.conj().T) / 2 * 10 ** rng.uniform(-12, 12)
    ctx.describe(n=n, kind=kind, H=H.real)
    G = np.asfortranarray(H.copy())
    w, Z = np.full(n, np.nan), np.asfortranarray(np.full((n, n), np.nan + 0j))
    with ctx.target("ZHEEVR"):
        P.eig(G, w, Z, n)
    s = np.abs(H).max() + 1e-300
    ctx.close(w, np.linalg.eigvalsh(H), "eigenvalues in ascending order", rtol=0, atol=1e-13 * n * s)
    ctx.check(np.abs(Z.conj().T @ Z - np.eye(n)).max() < 1e-12 * n, "eigenvectors are orthonormal", Z=Z.real)
    ctx.check(np.abs(H @ Z - Z * w).max() < 1e-13 * n * n * s, "eigenvectors belong to their eigenvalues", Z=Z.real, w=w)
    ctx.sig("eig", n, kind, round(float(np.log10(s))))


def near(v, edge):
    """Comparisons within rounding of an edge."""
    return np.abs(v - edge) <= 1e-11 * np.abs(edge)


def sph(ctx, rng, P):
    lat, x, c, m = cloud(rng)
    n = len(x)
    nb = int(rng.choice([1, 2, 5, 12]))
    if lat:
        r200 = float(2. ** rng.integers(-2, 3))
        e = np.sort(rng.choice(np.arange(0, 40), nb + 1, replace=False)) / 4. if rng.random() < .5 else np.arange(nb + 1.)
    else:
        r200 = float(np.float32(np.abs(x - c).max() * 10 ** rng.uniform(-1, .5)))
        e = np.sort(10 ** rng.uniform(-2, .3, nb + 1))
    if not (r200 > 0 and (np.diff(e) > 0).all()):
        return
    ctx.describe(n=n, edges=e, r200=r200, x=x, c=c, m=m, lattice=lat)
    sv = [v.copy() for v in (x, m, c, e)]
    d2, E2 = ((x - c) ** 2).sum(1), (e * r200) ** 2
    amb = not lat and near(d2[:, None], E2).any()
    V = 4 / 3 * np.pi * np.diff((e * r200) ** 3)
    M = np.array([m[(d2 < b) & (d2 >= a)].sum() for a, b in zip(E2[:-1], E2[1:])])
    buf = np.full(n, 10 ** 6, np.int32)
    with ctx.target("calcDensProfBruteForceSph"):
        got = np.array(P.dens(x, m, c, r200, e, np.zeros(nb), buf))
    with ctx.target("calcMenclsBruteForceSph"):
        enc = np.array(P.mencl(x, m, c, r200, e, np.zeros(nb + 1), np.full(n, 10 ** 6, np.int32)))
    kept(ctx, "spherical binning", zip((x, m, c, e), sv))
    if amb:
        ctx.undec("particle at an edge")
        return
    at = 1e-12 * m.sum()
    ctx.close(got * V, M, "mass between two radii", rtol=1e-10 * n, atol=at)
    ctx.close(enc, [m[d2 < b].sum() for b in E2], "mass within a radius", rtol=1e-10, atol=at)
    ctx.close(np.diff(enc), got * V, "enclosed masses add up", rtol=1e-9 * n, atol=1e-10 * m.sum())
    ctx.ev("particles on an edge", (d2[:, None] == E2).sum())
    ctx.sig("sph", n, nb, lat, tuple(np.minimum(3, (M > 0).cumsum())))


def ell(ctx, rng, P):
    lat, x, c, m = cloud(rng)
    n = len(x)
    nb = int(rng.choice([1, 2, 5, 12]))
    if lat:
        Q = np.eye(3)[rng.permutation(3)] * rng.choice([-1., 1.], 3)[:, None]
        ax = np.repeat(Q[None], nb, 0)
        k = np.sort(2. ** rng.choice(np.arange(-2, 5), nb + 1, replace=False)) if nb < 7 else None
        if k is None:
            return
        a, b, g = k * 4, k * 2, k * 1
    else:
        ax = np.array([gen.rotation(rng) for _ in range(nb)])
        a = np.sort(np.abs(x - c).max() * 10 ** rng.uniform(-1.5, .5, nb + 1))
        q, s = np.sort(10 ** rng.uniform(-1, 0, (2, nb + 1)), 0)[::-1]
        b, g = a * q, a * s
        ax = ax * 10 ** rng.uniform(-1, 1, (nb, 1, 1)) if rng.random() < .5 else ax          # interpolated axes are not of unit length
    if not (np.minimum(a, np.minimum(b, g)) > 0).all():
        return
    major, inter, minor = (np.ascontiguousarray(ax[:, k]) for k in range(3))
    ctx.describe(n=n, a=a, b=b, c=g, x=x, ctr=c, m=m, lattice=lat)
    args = (a, b, g, major, inter, minor)
    sv = [v.copy() for v in (x, m, c) + args]
    with ctx.target("calcDensProfBruteForceEll"):
        got = np.array(P.dens(x, np.zeros((n, 3)), m, c, 1.0, *args, np.zeros(nb), np.full(n, 10 ** 6, np.int32)))
    with ctx.target("calcMenclsBruteForceEll"):
        enc = np.array(P.mencl(x, np.zeros((n, 3)), m, c, *args, np.zeros(nb), np.full(n, 10 ** 6, np.int32)))
    kept(ctx, "ellipsoidal binning", zip((x, m, c) + args, sv))
    M, E = np.full(nb, np.nan), np.full(nb, np.nan)
    sig = []
    for i in range(nb):
        u = ax[i] / np.linalg.norm(ax[i], axis=1)[:, None]
        y = (x - c) @ u.T
        ro = ((y / [a[i + 1], b[i + 1], g[i + 1]]) ** 2).sum(1)
        ri = ((y / [a[i], b[i], g[i]]) ** 2).sum(1)
        tol = 1e-6 if not lat else 0.0         # lengths of the axes are kept in single precision
        if lat is False and (np.abs(ro - 1) <= tol).any():
            ctx.undec("particle at a surface")
            M[i] = E[i] = got[i] = enc[i] = np.nan
            continue
        if (ro < 1).any():
            E[i] = m[ro < 1].sum()
        s = (ro < 1) & (ri >= 1)
        if not lat and (np.abs(ri - 1) <= tol).any():
            ctx.undec("particle at a surface")
            got[i] = M[i] = np.nan
        elif s.any():
            M[i] = m[s].sum()
        sig.append(int(s.sum()) * 3 // n)
    V = 4 / 3 * np.pi * np.diff(a * b * g)
    at = 1e-12 * m.sum()
    ok = np.abs(V) > 1e-6 * (a * b * g)[1:]
    ctx.close((got * V)[ok], M[ok], "mass between two ellipsoids, undefined if there is none", rtol=1e-8 * n, atol=at)
    ctx.close(enc, E, "mass within an ellipsoid, undefined if there is none", rtol=1e-9, atol=at)
    ctx.sig("ell", n, nb, lat, tuple(sig))


def kernel(ctx, rng, P):
    ri = np.float32(10 ** rng.uniform(-3, 2))
    h = np.float32(float(ri) * 10 ** rng.uniform(-1.5, .7))
    ctx.describe(ri=float(ri), h=float(h))
    a, b = float(ri), float(h)
    r = np.float32(np.abs(a + b * rng.normal(size=20)) + 3e-3 * b).astype(float)
    with ctx.target("calcKTilde"):
        got = np.array([P.ktilde(v, ri, h) for v in r])
    t = r * a / b ** 2                # single precision: for small t the two exponentials cancel
    ref = np.exp(-(r - a) ** 2 / (2 * b * b)) * -np.expm1(-2 * t) / (2 * (2 * np.pi) ** 1.5 * t)
    ctx.close(got, ref, "smoothing kernel", rtol=5e-6 * (1 + 2 * a / b + ((r - a) / b) ** 2) + 1e-6 / t, atol=1e-7 * (2 * np.pi) ** -1.5)
    # its integral over space is that of a normalised Gaussian
    lo, hi = max(0.0, a - 8 * b), a + 8 * b
    z = np.float32(np.linspace(lo + 1e-4 * (hi - lo), hi, 400)).astype(float)
    with ctx.target("calcKTilde"):
        y = np.array([P.ktilde(v, ri, h) for v in z])
    integral = np.trapezoid(4 * np.pi * z ** 2 * y / b ** 3, z)
    ctx.close(integral, 1.0, "smoothing kernel is normalised", rtol=3e-3)
    ctx.sig("kernel", round(float(np.log10(a))), round(float(np.log10(b / a)), 1))
