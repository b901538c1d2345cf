"""Reference semantics, written from the documented definitions (Katz 1991 iteration, direct binning, ...),
independent of the code under test. Every function also says when its own result hinges on rounding."""
import numpy as np

NEAR = 1e-9


def unwrap(x, L):
    """Positions of one compact object (extent < L/2 in each direction), made contiguous."""
    if not L:
        return np.array(x, float)
    out = np.array(x, float)
    for k in range(3):
        s = np.sort(np.mod(out[:, k], L))
        gaps = np.append(np.diff(s), s[0] + L - s[-1])
        j = int(np.argmax(gaps))
        start = s[(j + 1) % len(s)]
        out[:, k] = start + np.mod(out[:, k] - start + L * 1e-12, L) - L * 1e-12
    return out


def com(x, m):
    m = np.asarray(m, float)
    x0 = x.mean(0)
    return x0 + (m[:, None] * (x - x0)).sum(0) / m.sum()


def mode(x, m, rad):
    """Shrinking-sphere centre: returns (centre, hinges on rounding)."""
    near = False
    while True:
        c = com(x, m)
        d = np.sqrt(((x - c) ** 2).sum(1))
        if rad > 0 and (np.abs(d - rad) < NEAR * max(rad, np.abs(c).max())).any():
            near = True
        keep = d < rad
        if keep.sum() < 5:
            return c, near
        x, m = x[keep], m[keep]
        if (x == x[0]).all():
            return x[0], near
        rad *= 0.83


def centre(x, m, how, rad=None):
    if how == "com":
        return com(x, m), False
    if rad is None:
        rad = (x.max(0) - x.min(0)).max()
    return mode(x, m, rad)


def katz(x, m, d, delta=None, reduced=False, tol=1e-2, wall=100, itmin=10, v=None, near=NEAR, near_err=1e-6):
    """x (and v) relative to the centre. delta None: ellipsoid; else shell of that thickness.
    Returns dict(ok, q, s, axes[3,3] rows major/inter/minor, it, why, amb, gap)."""
    amb = False
    r2 = (x ** 2).sum(1)
    r = np.sqrt(r2)

    def close_to(val, edge):
        return bool((np.abs(val - edge) < near * max(abs(edge), 1e-300)).any()) if len(val) else False
    sel = r < d
    amb |= close_to(r, d)
    if delta is not None:
        inner = d - delta
        sel &= r >= inner if inner > 0 else True
        if inner > 0:
            amb |= close_to(r, inner)
    rell = r
    q, s, err, it = 1.0, 1.0, 1.0, 1
    axes = None
    while err > tol:
        if it > wall:
            return dict(ok=False, why="wall", amb=amb, it=it, n=int(sel.sum()))
        if sel.sum() < itmin:
            return dict(ok=False, why="few", amb=amb, it=it, n=int(sel.sum()))
        y = (x if v is None else v)[sel]
        if m[sel].sum() == 0:
            return dict(ok=False, why="massless", amb=amb, it=it, n=int(sel.sum()))
        w = m[sel] / m[sel].sum()
        if reduced:
            w = np.where(rell[sel] > 0, w / np.maximum(rell[sel], 1e-300) ** 2, 0.0)      # no weight is defined exactly at the centre
        T = np.einsum("n,ni,nj->ij", w, y, y)
        e, V = np.linalg.eigh(T)
        if not e[0] > 1e-13 * e[2]:
            return dict(ok=None, why="degenerate", amb=True, it=it, n=int(sel.sum()))
        qn, sn = np.sqrt(e[1] / e[2]), np.sqrt(e[0] / e[2])
        err = max(abs(qn - q) / q, abs(sn - s) / s)
        amb |= abs(err - tol) < near_err * max(tol, 1e-3)
        q, s = qn, sn
        axes = V[:, ::-1].T
        p = x @ axes.T
        rell = np.sqrt(p[:, 0] ** 2 + (p[:, 1] / q) ** 2 + (p[:, 2] / s) ** 2)
        sel = rell < d
        amb |= close_to(rell, d)
        if delta is not None and delta != d:
            amb |= abs(s * d - delta) < 1e-6 * d
        if delta is not None and delta != d and s * d > delta:      # a shell thicker than the ellipsoid has no hole
            with np.errstate(all="ignore"):
                inn = (p[:, 0] / (d - delta)) ** 2 + (p[:, 1] / (q * d - delta)) ** 2 + (p[:, 2] / (s * d - delta)) ** 2
            amb |= bool((np.abs(inn[sel] - 1) < near).any()) or not np.isfinite(inn).all()
            sel &= inn >= 1
        it += 1
    gap = min(1 - q ** 2, q ** 2 - s ** 2)
    return dict(ok=True, q=q, s=s, axes=axes, it=it - 1, amb=amb, gap=gap, n=int(sel.sum()), why="conv")


def robust_katz(x, m, d, delta=None, change=1e-7, **kw):
    """katz(); an outcome that a perturbation of the coordinates by rounding already changes is ambiguous: the iteration
    amplifies rounding errors when few particles of weights 1/r^2 are left or the ellipsoid is very thin."""
    ref = katz(x, m, d, delta, **kw)
    if ref["ok"] is not None and len(x) and (ref.get("it", 1) > 4 or ref.get("s", 1) < .05):
        noise = np.random.default_rng(len(x)).normal(size=x.shape) * 1e-13 * np.abs(x).max()
        o = katz(x + noise, m, d, delta, **kw)
        ref["amb"] |= bool(o["amb"] or o["ok"] != ref["ok"] or o.get("it") != ref.get("it"))
        if ref["ok"] and o["ok"]:
            ref["amb"] |= bool(abs(o["q"] - ref["q"]) > change * ref["q"] or abs(o["s"] - ref["s"]) > change * ref["s"])
    return ref


def volume(r):
    return 4 / 3. * np.pi * r ** 3


def sph_edges(R):
    R = np.asarray(R, float)
    return np.concatenate([[1e-8], (R[:-1] + R[1:]) / 2, [R[-1]]])


def sph_density(x, m, r200, R, near=3e-7):
    """x relative to the centre. Returns (density, ambiguous per bin); r200 is used in single precision by design."""
    e = sph_edges(R) * r200
    r = np.sqrt((x ** 2).sum(1))
    dens, amb = np.zeros(len(R)), np.zeros(len(R), bool)
    for i in range(len(R)):
        dens[i] = m[(r >= e[i]) & (r < e[i + 1])].sum() / (volume(e[i + 1]) - volume(e[i]))
        for k in (i, i + 1):
            amb[i] |= bool((np.abs(r - e[k]) < near * e[k]).any())
    return dens, amb


def ell_edges(R):
    R = np.asarray(R, float)
    mid = (R[:-1] + R[1:]) / 2
    return np.concatenate([[mid[0] * mid[0] / mid[1]], mid, [R[-1]]])


def lin(xp, fp, x):
    """Piecewise linear interpolation with linear extrapolation."""
    xp, fp, x = np.asarray(xp, float), np.asarray(fp, float), np.asarray(x, float)
    k = np.clip(np.searchsorted(xp, x) - 1, 0, len(xp) - 2)
    t = (x - xp[k]) / (xp[k + 1] - xp[k])
    if fp.ndim == 2:
        t = t[:, None]
    return fp[k] + t * (fp[k + 1] - fp[k])


def align(ax):
    """Flip axes (rows) so that neighbours do not point apart."""
    out = np.array(ax, float)
    for i in range(1, len(out)):
        if out[i] @ out[i - 1] < 0:
            out[i] = -out[i]
    return out


def ell_density(x, m, r200, R, d, q, s, major, inter, minor, near=1e-6):
    """x relative to the centre; d, q, s, axes: converged shape profile. Returns (density, ambiguous)."""
    e = ell_edges(R) * r200
    a, b, c = lin(d, d, e), lin(d, d * q, e), lin(d, d * s, e)
    rc = np.asarray(R, float) * r200
    # the relative sign of neighbouring axes that are perpendicular is arbitrary
    loose = any((np.abs((z[1:] * z[:-1]).sum(1)) < 1e-4).any() for z in (major, inter, minor))
    fr = [lin(d, align(z), rc) for z in (major, inter, minor)]
    dens, amb = np.full(len(R), np.nan), np.zeros(len(R), bool)
    for i in range(len(R)):
        p = [x @ (f[i] / np.linalg.norm(f[i])) for f in fr]
        with np.errstate(all="ignore"):
            o = (p[0] / a[i + 1]) ** 2 + (p[1] / b[i + 1]) ** 2 + (p[2] / c[i + 1]) ** 2
            n = (p[0] / a[i]) ** 2 + (p[1] / b[i]) ** 2 + (p[2] / c[i]) ** 2
        sel = (o < 1) & (n >= 1)
        amb[i] = bool(loose or (np.abs(o - 1) < near).any() or (np.abs(n - 1) < near).any())
        vol = 4 / 3. * np.pi * (a[i + 1] * b[i + 1] * c[i + 1] - a[i] * b[i] * c[i])
        if sel.any():
            dens[i] = m[sel].sum() / vol
    return dens, amb


def kernel_density(x, m, r200, R):
    r = np.sqrt((x ** 2).sum(1))
    h = .005 * r200 * np.sqrt(r / (.1 * r200))
    out = np.zeros(len(R))
    for i, R_ in enumerate(np.asarray(R, float) * r200):
        k = 1 / (2 * (2 * np.pi) ** 1.5) * (h * h / (R_ * r)) * (np.exp(-(r - R_) ** 2 / (2 * h * h)) - np.exp(-(r + R_) ** 2 / (2 * h * h)))
        out[i] = (m * k / h ** 3).sum()
    return out


PROFS = {
    "einasto": lambda r, p: p["rho_s"] * np.exp(-2. / p["alpha"] * ((r / p["r_s"]) ** p["alpha"] - 1)),
    "alpha_beta_gamma": lambda r, p: p["rho_s"] * (r / p["r_s"]) ** -p["gamma"] * (1 + (r / p["r_s"]) ** p["alpha"]) ** (-(p["beta"] - p["gamma"]) / p["alpha"]),
    "nfw": lambda r, p: p["rho_s"] / ((r / p["r_s"]) * (1 + r / p["r_s"]) ** 2),
    "hernquist": lambda r, p: p["rho_s"] / ((r / p["r_s"]) * (1 + r / p["r_s"]) ** 3),
}
PARS = {"einasto": ["rho_s", "alpha", "r_s"], "alpha_beta_gamma": ["rho_s", "alpha", "beta", "gamma", "r_s"],
        "nfw": ["rho_s", "r_s"], "hernquist": ["rho_s", "r_s"]}


def wrap_diff(a, b, L):
    d = np.asarray(a, float) - np.asarray(b, float)
    return d - L * np.rint(d / L) if L else d
