"""Workload generators: synthetic catalogues of triaxial objects in (or not in) a periodic box."""
from types import SimpleNamespace
import numpy as np

H = 0.6774
INTERNAL = dict(length_in_cm="Mpc/h", mass_in_g="E+10Msun/h", velocity_in_cm_per_s="km/s", little_h=H)


def internal_units():
    import cosmic_profiles as cp
    cp.updateInUnitSystem(**INTERNAL)
    cp.updateOutUnitSystem(**INTERNAL)


def rotation(rng):
    a = rng.normal(size=(3, 3))
    q, r = np.linalg.qr(a)
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def cloud(rng, n, kind=None, rot=None):
    """n points of a triaxial object around the origin, extent (max |coordinate|) about 1."""
    kind = kind or rng.choice(["uniform", "iso", "cusp", "gauss", "octant", "sphere", "twist"])
    if kind == "octant":
        n8 = max(2, n // 8)
        u = rng.normal(size=(n8, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        base = np.abs(u) * rng.random(n8)[:, None]
        ax = np.array([1.0, rng.uniform(.4, .85), 0])
        ax[2] = ax[1] * rng.uniform(.4, .85)
        base = base * ax
        sg = np.array([[a, b, c] for a in (1, -1) for b in (1, -1) for c in (1, -1)])
        x = (base[:, None, :] * sg[None]).reshape(-1, 3)
        x = x[:, rng.permutation(3)]
        extra = n - len(x)
        if extra > 0:       # pairs through the origin keep the symmetry
            x = np.vstack([x, x[:extra] * 0.5])
        return x[rng.permutation(len(x))], kind
    u = rng.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    p = {"uniform": 1 / 3., "iso": 1.0, "cusp": 1.8, "gauss": .6, "sphere": .8, "twist": 1.0}[kind]
    r = rng.random(n) ** p
    if kind == "gauss":
        r = np.minimum(np.abs(rng.normal(size=n)) * .4, 1) + 1e-3 * rng.random(n)
    ax = np.array([1.0, rng.uniform(.35, .97), 0])
    ax[2] = ax[1] * rng.uniform(.4, .97)
    if kind == "sphere":
        ax = np.array([1., .999, .998])
    x = u * r[:, None] * ax
    if kind == "twist":     # orientation changes with radius
        ang = 1.5 * r
        c, s = np.cos(ang), np.sin(ang)
        x = np.stack([c * x[:, 0] - s * x[:, 1], s * x[:, 0] + c * x[:, 1], x[:, 2]], 1)
    x = x @ (rotation(rng) if rot is None else rot).T
    return x, kind


def masses_for(rng, n, kind=None):
    kind = kind or rng.choice(["equal", "unequal", "wild"])
    if kind == "equal":
        return np.full(n, 10 ** rng.uniform(-3, 1)), kind
    if kind == "unequal":
        return rng.uniform(.2, 2.0, n), kind
    return 10 ** rng.normal(0, .7, n), kind


def catalogue(rng, nobj=None, nmin=60, nmax=500, periodic=None, velocities=False, mass_kind=None, overlap=True,
              background=True, min_tiny=False, many=0.0):
    """Returns xyz, m, idx (list of int arrays), r200, L (0: not periodic), v, meta."""
    nobj = int(rng.integers(1, 6)) if nobj is None else nobj
    if many and rng.random() < many:     # a catalogue of many, smaller objects
        nobj = int(rng.integers(20, 130))
        nmin, nmax = min(nmin, 40), max(min(nmin, 40), min(nmax, 80))
    periodic = rng.random() < .75 if periodic is None else periodic
    scale = 10 ** rng.uniform(-1.3, .3)              # object half extent in Mpc/h
    if periodic:
        L = scale * (rng.uniform(4.1, 5) if rng.random() < .3 else rng.uniform(4.1, 60))   # objects stay below L/2
    else:
        L = 0.0
    pts, sizes, centres, kinds, straddle = [], [], [], [], []
    for k in range(nobj):
        n = int(rng.integers(nmin, nmax + 1))
        if min_tiny and rng.random() < .4:
            n = int(rng.integers(5, 30))
        x, kind = cloud(rng, n)
        h = np.abs(x).max() * (1 + 1e-12)
        x = x / h * scale * (rng.uniform(.3, 1) if nobj > 1 else 1.0)
        if periodic:
            c = rng.uniform(0, L, 3)
            st = rng.random(3) < rng.choice([0., .35, .7])
            c = np.where(st, (rng.choice([0., L], 3) + rng.uniform(-.6, .6, 3) * scale), c)
            straddle.append(int(st.sum()))
        else:
            c = rng.uniform(-20, 20, 3) * scale
            straddle.append(0)
        pts.append(x + c)
        centres.append(c)
        sizes.append(len(x))
        kinds.append(kind)
    nb = int(rng.integers(0, 200)) if background else 0
    lo, hi = (0, L) if periodic else (-20 * scale, 20 * scale)
    bg = rng.uniform(lo, hi, (nb, 3))
    allx = np.vstack(pts + [bg])
    if periodic:
        allx = np.mod(allx, L)
        allx[allx >= L] = 0.0
    n = len(allx)
    perm = rng.permutation(n)
    xyz = np.empty_like(allx)
    xyz[perm] = allx
    m, mk = masses_for(rng, n, mass_kind)
    idx, off = [], 0
    for s in sizes:
        idx.append(perm[off:off + s].copy())
        off += s
    if overlap and nobj > 1 and rng.random() < .3:     # an object that is part of another one
        k = int(rng.integers(0, nobj - 1))
        sub = idx[k]
        idx[k + 1] = rng.permutation(sub)[:max(6, int(len(sub) * .6))]
        kinds[k + 1] = kinds[k] + "-sub"
        straddle[k + 1] = straddle[k]
    ext = np.array([scale] * nobj)
    r200 = ext * rng.uniform(.3, 1.3, nobj)
    v = None
    if velocities:
        v = np.empty((n, 3))
        v[:] = rng.normal(size=(n, 3)) * 50
        for ii in idx:
            sig = rng.uniform(30, 200, 3)
            v[ii] = (rng.normal(size=(len(ii), 3)) * sig) @ rotation(rng).T + rng.normal(size=3) * 300
    return SimpleNamespace(xyz=xyz, m=m, idx=idx, r200=r200, L=float(L), v=v,
                           meta=dict(nobj=nobj, sizes=[len(i) for i in idx], kinds=[str(k) for k in kinds], L=float(L),
                                     mass=str(mk), straddle=straddle, n=n))


def input_form(rng, cat, r200=True):
    """The same catalogue in one of the input forms that the constructor accepts."""
    form = rng.choice(["lists", "arrays", "i64", "forder", "strided", "f32"])
    xyz, m = cat.xyz.copy(), cat.m.copy()
    idx = [np.int32(i) for i in cat.idx]
    if form == "lists":
        idx = [list(map(int, i)) for i in cat.idx]
    elif form == "i64":
        idx = [np.int64(i) for i in cat.idx]
    elif form == "forder":
        xyz = np.asfortranarray(xyz)
    elif form == "strided":
        big = np.zeros((len(xyz) * 2, 6))
        big[::2, ::2] = xyz
        xyz = big[::2, ::2]
        mb = np.zeros(len(m) * 3)
        mb[::3] = m
        m = mb[::3]
    elif form == "f32":
        xyz, m = np.float32(xyz), np.float32(m)
        L32 = np.float32(cat.L)
        if cat.L:
            xyz[np.float64(xyz) >= cat.L] = 0
    r2 = cat.r200.copy()
    if len(r2) == 1 and rng.random() < .5:
        r2 = float(r2[0])
    if len(idx) == 1 and form == "lists" and rng.random() < .5:
        idx = idx[0]
    return xyz, m, idx, r2, str(form)


def make(cat, tmp, center="mode", min_ptcs=1, snap="000", rng=None, form=None):
    """A DensShapeProfs over the catalogue (internal units must be set). Returns (object, catalogue as given)."""
    import cosmic_profiles as cp
    if rng is not None:
        xyz, m, idx, r2, form = input_form(rng, cat)
    else:
        xyz, m, idx, r2, form = cat.xyz, cat.m, [np.int32(i) for i in cat.idx], cat.r200, "arrays"
    o = cp.DensShapeProfs(xyz, m, idx, r2, cat.L, snap, tmp + "/viz", tmp + "/cat", MIN_NUMBER_PTCS=min_ptcs, CENTER=center)
    seen = SimpleNamespace(**vars(cat))
    seen.xyz, seen.m, seen.form = np.float64(xyz), np.float64(m), form
    return o, seen


def katz(rng, nr=None, **kw):
    nr = nr or int(rng.integers(1, 13))
    kind = rng.choice(["log", "lin", "irreg"])
    if kind == "log":
        R = np.logspace(rng.uniform(-1.2, -.4), rng.uniform(-.1, .3), nr)
    elif kind == "lin":
        R = np.linspace(rng.uniform(.1, .4), rng.uniform(.7, 1.5), nr)
    else:
        R = np.sort(rng.uniform(.1, 1.4, nr))
        R += np.arange(nr) * .01
    tol = 10 ** (rng.uniform(-3, -1.3) if rng.random() < .85 else rng.uniform(-1.3, -.1) if rng.random() < .8 else -5)
    cfg = dict(ROverR200=R, IT_TOL=float(tol), IT_WALL=int(rng.choice([1, 2, 3, 8, 25, 100], p=[.02, .03, .1, .15, .2, .5])),
               IT_MIN=int(rng.choice([3, 5, 10, 25, 40, 120], p=[.05, .2, .35, .2, .12, .08])), REDUCED=bool(rng.random() < .35), SHELL_BASED=bool(rng.random() < .4))
    cfg.update(kw)
    return cfg
