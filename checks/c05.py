"""C05: an object's results depend on that object alone: not on its companions, the selection's order, the number of
threads, nor on what was computed before; and nothing that the caller handed over is changed."""
import copy, os, shutil
import numpy as np
import gen, snap
from harness import Skip, set_threads

SHAPE = ("d", "q", "s", "is_conv", "minor", "inter", "major")


def flat(r):
    """A result as a list of (name, array whose first dimension is the object)."""
    r = np.asarray(r) if not isinstance(r, np.ndarray) else r
    if r.dtype.names:
        return [(f, np.asarray(r[f], float)) for f in r.dtype.names]
    return [("value", np.asarray(r, float))]


def same(a, b, rtol=1e-9):
    for (n, x), (_, y) in zip(flat(a), flat(b)):
        if x.shape != y.shape:
            return False, (n, x.shape, y.shape)
        with np.errstate(all="ignore"):
            sc = np.abs(x[~np.isnan(x)]).max() if (~np.isnan(x)).any() else 0
            bad = ~((np.abs(x - y) <= rtol * np.abs(x) + 1e-12 * sc) | (np.isnan(x) & np.isnan(y)) | (x == y))
            if n in ("minor", "inter", "major"):     # an axis has no sign
                bad &= ~((np.abs(x + y) <= rtol * np.abs(x) + 1e-12))
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            return False, (n, [int(v) for v in k], float(x[k]), float(y[k]))
    return True, None


def ops(rng, cfg, R):
    return {
        "local": lambda o, s: o.getShapeCatLocal(s, cfg),
        "global": lambda o, s: o.getShapeCatGlobal(s, cfg),
        "centres": lambda o, s: o.getMassesCenters(s),
        "sph": lambda o, s: o.estDensProfs(R, s, True, True),
        "ell": lambda o, s: o.estDensProfs(R, s, True, False, cfg),
        "kernel": lambda o, s: o.estDensProfs(R, s, False, True),
        "r200": lambda o, s: np.asarray(o.getR200())[s],
        "members": lambda o, s: members(o, s),
        "info": lambda o, s: (o.getObjInfo(), np.zeros(len(s)))[1],
        "fit": lambda o, s: o.fitDensProfs(o.estDensProfs(R, s, True, True), R, {"profile": "nfw", "min_method": "Nelder-Mead"}, s),
        "conc": lambda o, s: o.estConcentrations(o.estDensProfs(R, s, True, True), R, {"profile": "nfw", "min_method": "Nelder-Mead"}, s),
        "plot shapes": lambda o, s: (o.plotShapeProfs(2, s, cfg), np.zeros(len(s)))[1],
        "plot T": lambda o, s: (o.plotGlobalTHist(5, s, cfg), np.zeros(len(s)))[1],
        "plot eps": lambda o, s: (o.plotGlobalEpsHist(5, s), np.zeros(len(s)))[1],
    }


def members(o, s):
    idx, size = o.getIdxCat()
    off = np.append(0, np.cumsum(size))
    return np.array([np.asarray(idx, float)[off[k]:off[k + 1]].sum() for k in s])


CHEAP = ["local", "global", "centres", "sph", "ell", "kernel"]


def run(ctx):
    os.sched_setaffinity(0, _ALL)
    gen.internal_units()
    for i, rng in ctx.cases(500, 30000, until=.55):
        try:
            companions(ctx, rng)
        except Skip:
            continue
    for i, rng in ctx.cases(64, 4000, "history", until=.85):
        try:
            history(ctx, rng)
        except Skip:
            continue
    for i, rng in ctx.cases(60, 2500, "threads", until=.9):
        try:
            threads(ctx, rng)
        except Skip:
            continue
    for i, rng in ctx.cases(8, 200, "pool", until=.93):
        try:
            pools(ctx, rng)
        except Skip:
            continue
    for i, rng in ctx.cases(100, 4000, "sim"):
        d = os.path.join(os.getcwd(), "sim%s_%d" % (ctx.case, ctx.seed))
        try:
            simulation(ctx, rng, d)
        except Skip:
            continue
        finally:
            shutil.rmtree(d, ignore_errors=True)
            gen.internal_units()


def pools(ctx, rng):
    """Fits shared out over several worker processes, more objects than workers."""
    cat, cfg, R, center = setup(ctx, rng, nobj=int(rng.integers(5, 14)), nmin=60, nmax=200, periodic=True)
    R = np.logspace(-1, 0, 10)
    n = len(cat.idx)
    o = build(ctx, cat, center)
    name = str(rng.choice(["fit", "conc"]))
    op = ops(rng, cfg, R)[name]
    ctx.describe(op=name, meta=cat.meta, center=center)
    os.sched_setaffinity(0, set(sorted(_ALL)[:max(2, int(rng.integers(2, 6)))]))
    sel = rng.permutation(n)
    with ctx.target(name):
        allr = op(o, sel)
        p = rng.permutation(n)
        other = op(o, sel[p])
    ok, why = same(allr[p], other)
    ctx.check(ok, name + ": follows the order of the selection", why=why, sel=sel, other=sel[p])
    os.sched_setaffinity(0, {sorted(_ALL)[ctx.shard % len(_ALL)]})
    for k in range(n):
        with ctx.target(name):
            alone = op(o, [int(sel[k])])
        ok, why = same(allr[k:k + 1], alone)
        ctx.check(ok, name + ": same alone as in company, whatever the number of workers", why=why, obj=int(sel[k]), sel=sel)
    os.sched_setaffinity(0, _ALL)
    ctx.sig("pool", name, n)


def simulation(ctx, rng, d):
    """Shapes of a stored simulation: company, order, threads, history, and another catalogue in between."""
    cat, cfg, R, center = setup(ctx, rng, poor=.2, nobj=int(rng.integers(2, 9)), nmin=20, nmax=int(rng.choice([60, 300])), min_tiny=True, periodic=True,
                                velocities=True, overlap=False)
    set_threads(int(rng.integers(1, 9)))
    ctx.describe(meta=cat.meta, center=center, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, R=R)
    with ctx.target("DensShapeProfsGadget"):
        o, cat = snap.simulation(rng, cat, d, center)
        n = len(o.getIdxCat()[1])
    if not ctx.check(n == len(cat.idx), "all objects are found", got=n, expected=len(cat.idx)):
        return
    table = {"velocity local": lambda o, s: o.getShapeCatVelLocal(s, cfg), "velocity global": lambda o, s: o.getShapeCatVelGlobal(s, cfg)}
    all_ = ops(rng, cfg, R)
    table.update({k: all_[k] for k in CHEAP + ["r200", "members"]})
    if hasattr(cat, "poor"):
        del table["kernel"]
    names = list(table)
    sel = rng.permutation(n)[:int(rng.integers(2, n + 1))]
    first = {}
    before = [x.copy() for x in o.getXYZMasses()] + [np.array(o.getVelXYZ()), np.array(o.getR200()), np.array(o.getIdxCat()[0]), np.array(o.getIdxCat()[1])]
    for t in ["velocity local", "velocity global"] + [str(x) for x in rng.choice(names, 5)]:
        with ctx.target(t):
            r = table[t](o, sel)
        if t in first:
            ok, why = same(first[t], r)
            ctx.check(ok, t + ": the same when computed again", why=why, sel=sel)
            continue
        first[t] = r
        p = rng.permutation(len(sel))
        set_threads(int(rng.integers(1, 9)))
        with ctx.target(t):
            other = table[t](o, sel[p].tolist())
            k = int(rng.integers(0, len(sel)))
            alone = table[t](o, [int(sel[k])])
        ok, why = same(r[p], other)
        ctx.check(ok, t + ": follows the order of the selection", why=why, sel=sel, other=sel[p])
        ok, why = same(r[k:k + 1], alone)
        ctx.check(ok, t + ": same alone as in company", why=why, obj=int(sel[k]), sel=sel)
        ctx.sig("simulation", t, n, len(sel), cfg["REDUCED"], cfg["SHELL_BASED"])
    after = [x.copy() for x in o.getXYZMasses()] + [np.array(o.getVelXYZ()), np.array(o.getR200()), np.array(o.getIdxCat()[0]), np.array(o.getIdxCat()[1])]
    ctx.check(all(np.array_equal(a, b) for a, b in zip(before, after)), "the simulation reads the same afterwards")
    with ctx.target("opening again"):
        o2 = snap.reopen(d, center)
    for t in rng.permutation(sorted(first))[:3]:
        with ctx.target(t):
            r = table[t](o2, sel)
        ok, why = same(first[t], r)
        ctx.check(ok, t + ": same on a fresh catalogue", why=why, sel=sel)
    ctx.ev("simulations")


def setup(ctx, rng, poor=0.0, **kw):
    cat = gen.catalogue(rng, **kw)
    if rng.random() < poor:      # some objects cannot be classified: their rows must not be those of others
        for k in rng.permutation(len(cat.idx))[:int(rng.integers(1, len(cat.idx) + 1))]:
            if rng.random() < .5 and cat.v is None:
                cat.r200[k] = 0.0
            else:
                cat.xyz[cat.idx[k]] = cat.xyz[cat.idx[k][0]]
                if cat.v is not None:
                    cat.v[cat.idx[k]] = cat.v[cat.idx[k][0]]
        ctx.ev("catalogues with objects that cannot be classified")
        cat.poor = True          # no kernel densities: their formula has no value at zero distance or radius
    cfg = gen.katz(rng, nr=int(rng.integers(3, 8)), IT_MIN=5)
    R = np.sort(rng.uniform(.1, 1.2, int(rng.integers(3, 9)))) + np.arange(1) * 0
    R = R + np.arange(len(R)) * .01
    return cat, cfg, R, str(rng.choice(["mode", "com"]))


def build(ctx, cat, center, L=None):
    import cosmic_profiles as cp
    with ctx.target("constructor"):
        return cp.DensShapeProfs(cat.xyz, cat.m, [np.int32(x) for x in cat.idx], cat.r200, cat.L, "000", "viz", "cat", MIN_NUMBER_PTCS=1, CENTER=center)


def companions(ctx, rng):
    cat, cfg, R, center = setup(ctx, rng, poor=.35, many=.03, nobj=int(rng.integers(2, 9)), nmin=20, nmax=int(rng.choice([60, 300])), min_tiny=True)
    n = len(cat.idx)
    set_threads(int(rng.integers(1, 9)))
    name = str(rng.choice([c for c in CHEAP if c != "kernel" or not hasattr(cat, "poor")]))
    op = ops(rng, cfg, R)[name]
    ctx.describe(op=name, meta=cat.meta, center=center, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, R=R)
    handed = (cat.xyz.copy(), cat.m.copy(), [x.copy() for x in cat.idx], cat.r200.copy())
    o = build(ctx, cat, center)
    sel = rng.permutation(n)[:int(rng.integers(2, n + 1))]
    kept = (sel.copy(), copy.deepcopy(cfg), R.copy())
    with ctx.target(name):
        allr = op(o, sel)
    ctx.check((sel == kept[0]).all() and (R == kept[2]).all() and all(np.array_equal(cfg[k], kept[1][k]) for k in cfg), "arguments are left alone", op=name)
    for k in rng.permutation(len(sel))[:3]:
        with ctx.target(name):
            alone = op(o, [int(sel[k])])
        ok, why = same(allr[k:k + 1], alone)
        ctx.check(ok, name + ": same alone as in company", why=why, obj=int(sel[k]), sel=sel)
    p = rng.permutation(len(sel))
    with ctx.target(name):
        other = op(o, sel[p].tolist())
    ok, why = same(allr[p], other)
    ctx.check(ok, name + ": follows the order of the selection", why=why, sel=sel, other=sel[p])
    # a catalogue with only this object, and without the particles of the others
    k = int(rng.integers(0, len(sel)))
    from types import SimpleNamespace
    solo = SimpleNamespace(**vars(cat))
    ii = cat.idx[sel[k]]
    solo.xyz, solo.m, solo.idx, solo.r200 = cat.xyz[ii], cat.m[ii], [np.arange(len(ii))], cat.r200[sel[k]:sel[k] + 1]
    o2 = build(ctx, solo, center)
    with ctx.target(name):
        r = op(o2, [0])
    ok, why = same(allr[k:k + 1], r)
    ctx.check(ok, name + ": same in a catalogue of its own", why=why, obj=int(sel[k]))
    ok = (cat.xyz == handed[0]).all() and (cat.m == handed[1]).all() and (cat.r200 == handed[3]).all() and all((a == b).all() for a, b in zip(cat.idx, handed[2]))
    ctx.check(ok, "the catalogue handed over is left alone", op=name)
    ctx.sig(name, n, len(sel), cfg["REDUCED"], cfg["SHELL_BASED"], center)


def history(ctx, rng):
    import cosmic_profiles as cp
    os.sched_setaffinity(0, {sorted(_ALL)[ctx.shard % len(_ALL)]})       # one worker in the pools of the fits
    cats = [setup(ctx, rng, nobj=int(rng.integers(2, 5)), nmin=40, nmax=150) for _ in range(2)]
    R = cats[0][2]
    cfg = cats[0][1]
    cfg["IT_WALL"], cfg["REDUCED"] = 100, False
    table = ops(rng, cfg, R)
    names = list(table)
    seq = [(int(rng.integers(0, 2)), str(names[j]), rng.random() < .2) for j in rng.integers(0, len(names), int(rng.integers(6, 14)))]
    ctx.describe(seq=[(a, b) for a, b, _ in seq], metas=[c[0].meta for c in cats], R=R, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    used = [build(ctx, c[0], c[3]) for c in cats]
    recent = []
    for which, name, units in seq:
        cat = cats[which][0]
        sel = rng.permutation(len(cat.idx))[:int(rng.integers(2, len(cat.idx) + 1))]
        set_threads(int(rng.integers(1, 9)))
        if name.startswith("plot"):
            sel = np.arange(len(cat.idx))
        if units:       # an excursion to other output units
            cp.updateOutUnitSystem(length_in_cm="kpc", mass_in_g="Msun", velocity_in_cm_per_s="km/s", little_h=.7)
            with ctx.target(name):
                used[which].getMassesCenters([0])
            gen.internal_units()
        kept = sel.copy()
        with ctx.target(name):
            a = table[name](used[which], sel)
        ctx.check((sel == kept).all(), "arguments are left alone", op=name)
        with ctx.target(name):
            b = table[name](build(ctx, cat, cats[which][3]), sel)
        ok, why = same(b, a)
        ctx.check(ok, name + ": same as on a fresh catalogue", why=why, before=recent[-5:])
        recent.append(name)
        ctx.sig("history", tuple(recent[-2:]))
        ctx.ev("operations in histories")


def threads(ctx, rng):
    os.sched_setaffinity(0, _ALL)
    cat, cfg, R, center = setup(ctx, rng, poor=.35, nobj=int(rng.integers(1, 33)), nmin=6, nmax=int(rng.choice([40, 400])), min_tiny=True)
    o = build(ctx, cat, center)
    sel = np.arange(len(cat.idx))
    table = ops(rng, cfg, R)
    ctx.describe(meta=cat.meta, center=center, R=R, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    for name in CHEAP:
        if name == "kernel" and hasattr(cat, "poor"):
            continue
        set_threads(1)
        with ctx.target(name):
            ref = table[name](o, sel)
        for t in (2, 3, 8, 16):
            set_threads(t)
            with ctx.target(name):
                r = table[name](o, sel)
            ok, why = same(ref, r)
            ctx.check(ok, name + ": same with any number of threads", why=why, threads=t, objects=len(sel))
        ctx.sig("threads", name, len(sel))
    set_threads(2)


_ALL = os.sched_getaffinity(0)
