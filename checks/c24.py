"""C24: parallel loops are free of data races, however objects and radii are dealt out to the threads.

Build variant "tsan": the kernels run under ThreadSanitizer, with lib/gomp_shim.c in the place of libgomp, so that which
thread runs which iteration is a policy of ours, and lib/lapack_probe.c in front of LAPACK."""
import ctypes, glob, os, shutil
import numpy as np
import probe
probe.install()
import gen, snap                                                                    # noqa: E402
from harness import Skip, load                                                      # noqa: E402

SHIM = ctypes.CDLL(os.path.join(os.environ["VERIF_BDIR"], "libgompshim.so"))
SHIM.shim_policy.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int]
SHIM.omp_set_num_threads.argtypes = [ctypes.c_int]
same = load("c05").same
POLICIES = ["in turn", "by lot", "in blocks", "backwards in turn", "one apart"]


def stats():
    st, tr = (ctypes.c_long * 4)(), ctypes.c_uint64()
    SHIM.shim_stats(st, ctypes.byref(tr))
    return dict(regions=st[0], iterations=st[1], shared=st[2]), tr.value


class Reports:
    """What the race detector has written since the last look."""

    def __init__(self, ctx):
        self.pat, self.pos = ctx.out + ".san*", {}
        self.new()

    def new(self):
        txt = ""
        for f in sorted(glob.glob(self.pat)):
            with open(f, errors="replace") as fh:
                fh.seek(self.pos.get(f, 0))
                t = fh.read()
                self.pos[f] = fh.tell()
            txt += t
        return [r for r in txt.split("==================\n") if "WARNING: ThreadSanitizer" in r]


def run(ctx):
    tmp = os.getcwd()
    gen.internal_units()
    rep = Reports(ctx)
    for i, rng in ctx.cases(128, 4000, until=.6):
        try:
            catalogue(ctx, rng, rep)
        except Skip:
            continue
    for i, rng in ctx.cases(80, 2500, "sim"):
        d = os.path.join(tmp, "sim%s_%d" % (ctx.case, ctx.seed))
        try:
            simulation(ctx, rng, rep, d)
        except Skip:
            pass
        finally:
            gen.internal_units()
            shutil.rmtree(d, ignore_errors=True)
    ctx.ev("calls of LAPACK observed", probe.calls())


def observe(ctx, rng, rep, what, fn, rounds, rtol=1e-9):
    """fn() on one thread, then on several with the iterations dealt out in different ways."""
    SHIM.omp_set_num_threads(1)
    SHIM.shim_policy(0, 1, 0)
    with ctx.target(what):
        ref = fn()
    for _ in range(rounds):
        pol, nt, delay = int(rng.integers(5)), int(rng.choice([2, 2, 3, 4, 6])), int(rng.choice([0, 0, 300]))
        SHIM.omp_set_num_threads(nt)
        SHIM.shim_policy(pol, int(rng.integers(1 << 40)), delay)
        a, _ = stats()
        with ctx.target(what):
            got = fn()
        b, tr = stats()
        races = rep.new()
        ctx.check(not races, what + ": no data race", policy=POLICIES[pol], threads=nt, report=races[0][:3500] if races else None)
        ok, why = same(ref, got, rtol)
        ctx.check(ok, what + ": same result as on one thread", policy=POLICIES[pol], threads=nt, difference=why)
        ctx.ev("parallel regions", b["regions"] - a["regions"])
        ctx.ev("iterations", b["iterations"] - a["iterations"])
        ctx.ev("loops shared between threads", b["shared"] - a["shared"])
        ctx.sig(what, nt, tr)
    return ref


def catalogue(ctx, rng, rep):
    cat = gen.catalogue(rng, many=.02, nobj=int(rng.choice([2, 3, 5, 9])), nmin=12, nmax=int(rng.choice([40, 150, 400])), min_tiny=True)
    center = str(rng.choice(["mode", "com"]))
    o, _ = gen.make(cat, os.getcwd(), center)
    n = len(cat.idx)
    sel = rng.permutation(n)[:max(2, int(rng.integers(1, n + 1)))].tolist()
    cfg = gen.katz(rng, IT_MIN=int(rng.choice([2, 5, 10])))
    if len(cfg["ROverR200"]) < 5:
        cfg["ROverR200"] = np.logspace(-1, .2, 6)
    R = np.sort(rng.uniform(.05, 1.2, int(rng.integers(2, 9))))
    ctx.describe(meta=cat.meta, center=center, sel=sel, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, R=R)
    observe(ctx, rng, rep, "local", lambda: o.getShapeCatLocal(sel, cfg), 2)
    observe(ctx, rng, rep, "global", lambda: o.getShapeCatGlobal(sel, cfg), 2)
    observe(ctx, rng, rep, "centres", lambda: o.getMassesCenters(sel), 1)
    observe(ctx, rng, rep, "sph", lambda: o.estDensProfs(R, sel, True, True), 2)
    observe(ctx, rng, rep, "kernel", lambda: o.estDensProfs(R, sel, False, True), 2)
    if len(R) >= 5:
        observe(ctx, rng, rep, "ell", lambda: o.estDensProfs(R, sel, True, False, cfg), 2)


def simulation(ctx, rng, rep, d):
    import cosmic_profiles as cp
    typ = str(rng.choice(["dm", "stars", "gas"]))
    ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
    cat = gen.catalogue(rng, nobj=int(rng.integers(2, 7)), nmin=40, nmax=200, velocities=True, overlap=False, periodic=True)
    cp.updateInUnitSystem("kpc/h", "E+10Msun/h", "km/s", gen.H)
    cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", gen.H)
    part, fof, subs, cat = snap.population(rng, cat, (1e3, 1.0, 1.0), ptype, 10)
    head = snap.header(rng, BoxSize=cat.L * 1e3, Redshift=0.0, Time=1.0)
    sp = snap.write_hdf5(os.path.join(d, "snap_024"), {ptype: part}, head, 1, rng)
    snap.write_fof(os.path.join(d, "g"), fof, subs, 1, rng)
    cfg = gen.katz(rng)
    tables = [0]

    def load_():
        # the group tables are memoised by path and limit, so every look at them takes another path
        tables[0] += 1
        g = os.path.join(d, "g%d" % tables[0])
        os.symlink(os.path.join(d, "g"), g)
        try:
            o = cp.DensShapeProfsGadget(sp, g, typ, "024", d + "/viz", d + "/cat", MIN_NUMBER_PTCS=10)
            idx, size = o.getIdxCat()
            return np.append(np.float64(idx), np.float64(size)), np.float64(o.getR200()), o
        finally:
            os.unlink(g)
    ctx.describe(meta=cat.meta, type=typ, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    import cosmic_profiles.gadget.gen_catalogues as gc
    fresh = getattr(gc.calcObjCat, "inner", None)

    def tab():
        # remembered results would keep the loops from running at all
        for f in (gc.calcObjCat,):
            inner = getattr(f, "inner", None)
            if inner is not None and hasattr(inner, "cache_clear"):
                inner.cache_clear()
        return load_()[0]
    observe(ctx, rng, rep, "object catalogue", tab, 2)
    del fresh
    o = load_()[2]
    n = len(o.getIdxCat()[1])
    if n == 0:
        return
    sel = rng.permutation(n).tolist()
    observe(ctx, rng, rep, "velocity local", lambda: o.getShapeCatVelLocal(sel, cfg), 2)
    observe(ctx, rng, rep, "velocity global", lambda: o.getShapeCatVelGlobal(sel, cfg), 2)
