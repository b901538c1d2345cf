"""C15: dumped shape catalogues hold what was computed, and are taken up again unchanged."""
import os, shutil
import numpy as np
import gen, refs, snap
from harness import Skip, set_threads

AX = ("minor", "inter", "major")
PRINT = 6e-8                 # eight significant digits
UNITS = [("kpc/h", 1e3, 0), ("Mpc/h", 1.0, 0), ("Mpc", 1.0, 1), ("kpc", 1e3, 1), ("Gpc/h", 1e-3, 0)]
MUNITS = [("E+10Msun/h", 1.0, 0), ("Msun/h", 1e10, 0), ("Msun", 1e10, 1), ("E+10Msun", 1.0, 1)]


def run(ctx):
    base = os.getcwd()
    for i, rng in ctx.cases(800, 30000):
        d = os.path.join(base, "case%s_%d" % (ctx.case, ctx.seed))
        os.makedirs(d)
        try:
            one(ctx, rng, d)
        except Skip:
            pass
        finally:
            os.chdir(base)
            shutil.rmtree(d, ignore_errors=True)
    for _ in ctx.once("stale"):
        stale(ctx)


def read(path, rows):
    with open(path) as f:
        out = [[float(t) for t in line.split()] for line in f if line.strip()]
    a = np.array(out)
    return a.reshape(rows, -1) if a.size else a.reshape(rows, 0)


def setup(ctx, rng, d):
    import cosmic_profiles as cp
    gadget = rng.random() < .4
    cat = gen.catalogue(rng, many=.04, nobj=int(rng.choice([1, 1, 2, 3, 5])), nmin=30, nmax=int(rng.choice([60, 300])), velocities=True, overlap=not gadget,
                        periodic=True if gadget else None)
    h = float(rng.uniform(.5, .9))
    ou, of, oh = UNITS[int(rng.integers(len(UNITS)))]
    mu, mf, mh = MUNITS[int(rng.integers(len(MUNITS)))]
    of, mf = of / (h if oh else 1), mf / (h if mh else 1)
    center = str(rng.choice(["mode", "com"]))
    name = str(rng.choice(["cat", "a/b/cat", "with space", "x-é", "cat/"]))
    cp.updateInUnitSystem("Mpc/h", "E+10Msun/h", "km/s", h)
    cp.updateOutUnitSystem(ou, mu, "km/s", h)
    if rng.random() < .4:
        os.chdir(d)
        dest = name
    else:
        dest = os.path.join(d, name)
    snapno = str(rng.choice(["000", "024", "z1.5", "7"]))
    viz = os.path.join(d, "viz")
    if not gadget:
        idx = [np.int32(i) for i in cat.idx]

        def make(dest=dest, snapno=snapno):
            return cp.DensShapeProfs(cat.xyz, cat.m, idx, cat.r200, cat.L, snapno, viz, dest, MIN_NUMBER_PTCS=1, CENTER=center)
        suf = {"local": "_", "global": "_"}
    else:
        typ = str(rng.choice(["dm", "stars", "gas"]))
        pt = {"dm": 1, "stars": 4, "gas": 0}[typ]
        part, fof, subs, cat = snap.population(rng, cat, (1.0, 1.0, 1.0), pt, 10)
        head = snap.header(rng, BoxSize=cat.L, Redshift=0.0, Time=1.0)
        sp = snap.write_hdf5(os.path.join(d, "snap_024"), {pt: part}, head, 1, rng)
        snap.write_fof(os.path.join(d, "g"), fof, subs, 1, rng)
        cat.r200 = cat.rvir

        def make(dest=dest, snapno=snapno):
            return cp.DensShapeProfsGadget(sp, os.path.join(d, "g"), typ, snapno, viz, dest, MIN_NUMBER_PTCS=10, CENTER=center)
        suf = {"local": "_%s_" % typ, "global": "_%s_" % typ, "vlocal": "_v%s_" % typ, "vglobal": "_v%s_" % typ}
    return cat, make, dest, snapno, suf, of, mf, center, gadget, (h, ou, mu)


GET = {"local": "getShapeCatLocal", "global": "getShapeCatGlobal", "vlocal": "getShapeCatVelLocal", "vglobal": "getShapeCatVelGlobal"}
DUMP = {"local": "dumpShapeCatLocal", "global": "dumpShapeCatGlobal", "vlocal": "dumpShapeVelCatLocal", "vglobal": "dumpShapeVelCatGlobal"}


def one(ctx, rng, d):
    cat, make, dest, snapno, suf, of, mf, center, gadget, units = setup(ctx, rng, d)
    set_threads(int(rng.integers(1, 5)))
    cfg = gen.katz(rng, nr=int(rng.choice([1, 1, 2, 3, 8])))
    if rng.random() < .2:
        cfg["IT_MIN"] = 10 ** 6           # nothing can be classified
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    arg = sel.tolist() if rng.random() < .5 else sel
    ctx.describe(meta=cat.meta, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, sel=sel, dest=dest, snap=snapno, suffixes=suf, units=units, center=center)
    with ctx.target("constructor"):
        o = make()
    kinds = [k for k in suf]
    before = {}
    for k in kinds:
        with ctx.target(GET[k]):
            before[k] = getattr(o, GET[k])(arg, cfg)
    nr = len(cfg["ROverR200"])
    order = [kinds[j] for j in rng.permutation(len(kinds))][:int(rng.integers(1, len(kinds) + 1))]
    edges = np.sort(rng.uniform(.05, 1.2, 5)) + np.arange(5) * .01
    dens0 = None
    if not gadget and "local" in order and rng.random() < .4 and nr >= 2:
        with ctx.target("estDensProfs, ellipsoidal"):
            dens0 = o.estDensProfs(edges, arg, direct_binning=True, spherical=False, katz_config=cfg)
    dumped = []
    for step, k in enumerate(order):
        with ctx.target(DUMP[k]):
            getattr(o, DUMP[k])(arg, cfg)
        dumped.append(k)
        files(ctx, rng, k, before[k], dest, snapno, suf[k], sel, cat, of, mf, center, nr)
        if ctx._viol_case:
            return
        o2 = make() if rng.random() < .5 else o
        ctx.ev("read by another catalogue" if o2 is not o else "read by the same catalogue")
        for g in kinds:
            with ctx.target(GET[g] + " after a dump"):
                got = getattr(o2, GET[g])(arg, cfg)
            same(ctx, got, before[g], "dumped" if g in dumped else "not dumped", g)
        o = o2
    k = order[int(rng.integers(len(order)))]
    pats = {f: open(_path(dest, f, k, suf[k], snapno)).read() for f in names()}
    with ctx.target("dumping again"):
        getattr(o, DUMP[k])(arg, cfg)
    for f in names():
        a, b = pats[f].split(), open(_path(dest, f, k, suf[k], snapno)).read().split()
        if not ctx.check(len(a) == len(b) and np.allclose(np.float64(a), np.float64(b), rtol=2e-7, atol=0, equal_nan=True), "dumping again changes nothing", file=f):
            break
    # a catalogue of another snapshot, or with another destination, does not see these files
    o3 = make(snapno=snapno + "9") if rng.random() < .5 else make(dest=os.path.join(d, "elsewhere"))
    with ctx.target("another snapshot"):
        got = getattr(o3, GET[k])(arg, cfg)
    same(ctx, got, before[k], "another snapshot", k, exact=True)
    if not ctx._viol_case:
        with ctx.target("another selection in another snapshot"):
            s2 = rng.permutation(n)[:int(rng.integers(1, n + 1))]
            a = getattr(o3, GET[k])(s2, cfg)
            b = getattr(make(snapno=snapno + "88"), GET[k])(s2, cfg)
        same(ctx, a, b, "another selection", k, exact=True)
    if dens0 is not None:
        with ctx.target("estDensProfs, ellipsoidal, from dumped shapes"):
            dens1 = o.estDensProfs(edges, arg, direct_binning=True, spherical=False, katz_config=cfg)
        ok = np.isclose(dens1, dens0, rtol=1e-4, atol=0, equal_nan=True).mean()
        ctx.check(ok >= .9, "ellipsoidal densities from dumped shapes", agree=float(ok))
    if rng.random() < .3:
        f = ["q", "s", "minor", "inter", "major", "m", "centers"][int(rng.integers(7))]
        os.remove(_path(dest, f, k, suf[k], snapno))
        ctx.expect_raises(OSError, lambda: getattr(make(), GET[k])(arg, cfg), "an incomplete dump is not read", missing=f, kind=k)
    if rng.random() < .3:
        bad = os.path.join(d, "occupied")
        open(bad, "w").close()
        o4 = make(dest=bad)
        ctx.expect_raises(OSError, lambda: getattr(o4, DUMP[k])(arg, cfg), "a dump that cannot be written is reported", kind=k)


def names():
    return ("d", "q", "s") + AX + ("m", "centers")


def _path(dest, f, k, suf, snapno):
    return os.path.join(dest, "%s_%s%s%s.txt" % (f, k.lstrip("v"), suf, snapno))


def files(ctx, rng, k, r, dest, snapno, suf, sel, cat, of, mf, center, nr):
    n = len(sel)
    miss = [f for f in names() if not os.path.exists(_path(dest, f, k, suf, snapno))]
    if not ctx.check(not miss, "dumped files have their documented names", missing=miss, kind=k):
        return
    local = k.endswith("local")
    for f in names():
        a = read(_path(dest, f, k, suf, snapno), n)
        if f in ("d", "q", "s"):
            ref = np.asarray(r[f]).reshape(n, -1)
        elif f in AX:
            ref = np.asarray(r[f]).reshape(n, -1)
        elif f == "m":
            ref = np.array([[cat.m[cat.idx[j]].sum() * mf] for j in sel])
        else:
            ref, amb = [], []
            for j in sel:
                c, am = refs.centre(refs.unwrap(cat.xyz[cat.idx[j]], cat.L), cat.m[cat.idx[j]], center)
                ref.append(c * of)
                amb.append(am)
            ref = np.array(ref)
            if a.shape == ref.shape:
                diff = a - ref
                if cat.L:
                    ctx.check(((a >= -1e-6 * cat.L * of) & (a <= cat.L * of * (1 + 1e-6))).all(), "dumped centres lie in the box", kind=k, got=a, L=cat.L * of)
                    diff -= np.round(diff / (cat.L * of)) * cat.L * of
                bad = (np.abs(diff) > 1e-6 * (np.abs(ref) + np.abs(a) + cat.r200[sel][:, None] * of)).any(1) & ~np.array(amb)
                ctx.check(not bad.any(), "dumped centres", kind=k, got=a, expected=ref)
                continue
        ctx.close(a, ref, "dumped %s: %s" % ({"m": "masses", "centers": "centres"}.get(f, f), k), rtol=1e-6 if f == "m" else PRINT,
                  atol=1e-300 if f == "m" else 1e-12)
    ctx.sig(k, suf[:2], n, nr if local else 0, int(np.isnan(np.asarray(r["q"], float)).sum()), center)
    ctx.ev("unclassified rows dumped", int(np.isnan(np.asarray(r["q"], float)).sum()))
    ctx.ev("single object dumped", n == 1)
    ctx.ev("single radius dumped", local and nr == 1)


def same(ctx, got, ref, what, k, exact=False):
    if not ctx.check(got.shape == ref.shape and got.dtype.names == ref.dtype.names, "%s: same rows" % what, kind=k, got=list(got.shape), expected=list(ref.shape)):
        return
    for f in ref.dtype.names:
        if f == "is_conv":
            ctx.check(np.array_equal(got[f], ref[f]), "%s: flags are the same" % what, kind=k)
        else:
            ctx.close(got[f], ref[f], "%s: %s results are the same" % (what, k), rtol=0 if exact else 2e-7, atol=0 if exact else 1e-12, field=f)


def stale(ctx):
    """Listed finding: what was dumped is returned to whoever asks, for whichever objects, settings and units."""
    import cosmic_profiles as cp
    rng = np.random.default_rng(3)
    h = .7
    cp.updateInUnitSystem("Mpc/h", "E+10Msun/h", "km/s", h)
    cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", h)
    cat = gen.catalogue(rng, nobj=3, nmin=100, nmax=200, periodic=True, overlap=False)
    idx = [np.int32(i) for i in cat.idx]

    def make(dest):
        return cp.DensShapeProfs(cat.xyz, cat.m, idx, cat.r200, cat.L, "000", "viz", dest, MIN_NUMBER_PTCS=1, CENTER="com")
    cfg = dict(ROverR200=np.array([.3, .6, 1.0]), IT_TOL=1e-2, IT_WALL=100, IT_MIN=10, REDUCED=False, SHELL_BASED=False)
    other = dict(cfg, ROverR200=np.array([.4, .7, .9]))
    o = make("stale")
    o.dumpShapeCatLocal([0], cfg)
    fresh = make("fresh")

    def differs(a, b):
        return not np.allclose(np.nan_to_num(a["d"], nan=-1), np.nan_to_num(b["d"], nan=-1), rtol=1e-5) or not np.allclose(
            np.nan_to_num(a["q"], nan=-1), np.nan_to_num(b["q"], nan=-1), rtol=1e-5)
    ctx.finding("dump-other-selection", differs(o.getShapeCatLocal([1], cfg), fresh.getShapeCatLocal([1], cfg)),
                "getShapeCatLocal([1]) after dumpShapeCatLocal([0]) into the same CAT_DEST and SNAP returns the shapes of object 0")
    ctx.finding("dump-other-settings", differs(o.getShapeCatLocal([0], other), fresh.getShapeCatLocal([0], other)),
                "getShapeCatLocal with other radii after dumpShapeCatLocal returns the dumped radii")
    a = o.getShapeCatLocal([0], cfg)
    cp.updateOutUnitSystem("kpc/h", "E+10Msun/h", "km/s", h)
    b = o.getShapeCatLocal([0], cfg)
    ctx.finding("dump-other-units", not np.allclose(b["d"][0], a["d"][0] * 1e3, rtol=1e-5, equal_nan=True),
                "getShapeCatLocal after updateOutUnitSystem returns the dumped lengths as if they were in the new units")
    ctx.ev("known findings replayed")
