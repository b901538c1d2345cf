"""C19: no input makes the compiled kernels touch memory that is not theirs, use memory that nobody wrote, lose memory,
or compute something undefined; every call comes back with a result or with a Python exception.

Build variant "asan": AddressSanitizer, UndefinedBehaviorSanitizer and Cython's index checks (also where the code turns
them off); lib/lapack_probe.c touches the buffers given to LAPACK. Fresh memory is filled with garbage."""
import contextlib, ctypes, gc, glob, os, shutil, sys, traceback
import numpy as np
import probe
probe.install()
import gen, snap                                                                    # noqa: E402
from harness import Skip, load, set_threads                                         # noqa: E402

HEAP = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
HEAP.restype = ctypes.c_size_t
same = load("c05").same
UNRAISED = []


class Garbage:
    """np.empty and np.empty_like give arrays full of the given byte."""

    def __init__(self, byte):
        self.byte = byte

    def __enter__(self):
        self.old = np.empty, np.empty_like

        def wrap(f):
            def g(*a, **k):
                x = f(*a, **k)
                if x.dtype.kind in "biufc" and x.size:
                    x.view(np.ndarray).reshape(-1)[...] = np.frombuffer(bytes([self.byte]) * x.dtype.itemsize, x.dtype)[0]
                return x
            return g
        np.empty, np.empty_like = wrap(self.old[0]), wrap(self.old[1])

    def __exit__(self, *a):
        np.empty, np.empty_like = self.old


class Reports:
    def __init__(self, ctx):
        self.pat, self.pos = ctx.out + ".san*", {}

    def new(self):
        txt = ""
        for f in sorted(glob.glob(self.pat)):
            with open(f, errors="replace") as fh:
                fh.seek(self.pos.get(f, 0))
                txt += fh.read()
                self.pos[f] = fh.tell()
        return txt


def run(ctx):
    tmp = os.getcwd()
    sys.unraisablehook = lambda u: UNRAISED.append(u.exc_value)
    gen.internal_units()
    rep = Reports(ctx)
    for i, rng in ctx.cases(320, 12000, until=.4):
        with contextlib.suppress(Skip):
            plain(ctx, rng, rep)
    for i, rng in ctx.cases(640, 20000, "hostile", until=.75):
        with contextlib.suppress(Skip):
            hostile(ctx, rng, rep)
    for i, rng in ctx.cases(96, 3000, "sim", until=.9):
        d = os.path.join(tmp, "sim%s_%d" % (ctx.case, ctx.seed))
        try:
            simulation(ctx, rng, rep, d)
        except Skip:
            pass
        finally:
            gen.internal_units()
            shutil.rmtree(d, ignore_errors=True)
    for i, rng in ctx.cases(24, 600, "leak"):
        with contextlib.suppress(Skip):
            leak(ctx, rng, rep)
    ctx.ev("calls of LAPACK observed", probe.calls())


def out_of_bounds(e):
    """Is this an index check that fired where the code relies on not needing it?"""
    if not (isinstance(e, IndexError) and "ut of bounds on buffer access" in str(e)):
        return False
    frames = [os.path.basename(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    return any(f in UNCHECKED for f in frames)


UNCHECKED = set(open(os.path.join(os.environ["VERIF_BDIR"], "unchecked.txt")).read().split())


def call(ctx, rep, what, fn, valid):
    """One call of the code under test; valid: it has to return."""
    res, err = None, None
    try:
        res = fn()
    except Exception as e:
        err = e
    txt = rep.new()
    ctx.check("runtime error" not in txt and "ERROR: AddressSanitizer" not in txt, what + ": no sanitizer report", report=txt[:3500])
    bad = [e for e in [err] + UNRAISED if e is not None and out_of_bounds(e)]
    ctx.check(not bad, what + ": every index is within its array", error=repr(bad[:1]),
              tb="".join(traceback.format_exception(bad[0]))[-1200:] if bad else None)
    ctx.check(not UNRAISED, what + ": no exception is swallowed", error=repr(UNRAISED[:1]))
    del UNRAISED[:]
    if err is not None and valid:
        ctx.check(False, "raises on a valid input: " + what, error=repr(err)[:300], tb="".join(traceback.format_exception(err))[-1200:])
        raise Skip()
    ctx.ev("hostile calls that were refused" if err is not None else "calls that returned")
    return res


def everything(ctx, rep, o, sel, cfg, R, valid, rng):
    """All kernels of a catalogue; returns the results by name."""
    out = {}
    todo = {"local": lambda: o.getShapeCatLocal(sel, cfg), "global": lambda: o.getShapeCatGlobal(sel, cfg), "centres": lambda: o.getMassesCenters(sel),
            "sph": lambda: o.estDensProfs(R, sel, True, True), "kernel": lambda: o.estDensProfs(R, sel, False, True)}
    if not valid or (len(R) >= 5 and len(cfg["ROverR200"]) >= 5):
        todo["ell"] = lambda: o.estDensProfs(R, sel, True, False, cfg)
    for k, f in todo.items():
        out[k] = call(ctx, rep, k, f, valid)
    return out


def plain(ctx, rng, rep):
    """Ordinary catalogues; with one thread the scratch arrays are exactly as long as the largest object."""
    crowd = rng.random() < .1            # more threads than processors
    cat = gen.catalogue(rng, nmin=6, nmax=int(rng.choice([20, 100, 400])), min_tiny=True, many=.8 * crowd)
    center = str(rng.choice(["mode", "com"]))
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist()
    cfg = gen.katz(rng, IT_MIN=int(rng.choice([1, 2, 5, 10])))
    R = np.sort(rng.uniform(.05, 1.2, int(rng.integers(1, 12))))
    nt = int(rng.choice([1, 1, 2, 4])) if not crowd else os.cpu_count() + int(rng.integers(1, 9))
    set_threads(nt)
    ctx.describe(meta=cat.meta, center=center, sel=sel, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, R=R, threads=nt)
    form = np.random.default_rng(int(rng.integers(1 << 30)))
    seen = []
    for byte in (0xff, 0x41):
        with Garbage(byte):
            o, _ = gen.make(cat, os.getcwd(), center)
            seen.append(everything(ctx, rep, o, sel, cfg, R, True, form))
    for k in seen[0]:
        ok, why = same(seen[0][k], seen[1][k])
        ctx.check(ok, "no result depends on memory that nobody wrote", operation=k, difference=why)
        ctx.sig("plain", k, nt, len(sel), int(np.log2(max(len(i) for i in cat.idx))))


def hostile(ctx, rng, rep):
    """Inputs at and beyond the limits: a result or a Python exception, nothing else."""
    kinds = ["one particle", "two particles", "coincident", "collinear", "coplanar", "huge", "tiny", "outside the box", "massless", "negative mass",
             "wide", "nan", "inf", "lattice", "with itself", "heavy"]
    kind = str(rng.choice(kinds))
    n = {"one particle": 1, "two particles": 2}.get(kind, int(rng.integers(3, 80)))
    nobj = int(rng.integers(1, 4))
    L = 0.0 if rng.random() < .3 else 10.0
    x = rng.normal(size=(n * nobj, 3)) * .3 + 5
    m = rng.uniform(.5, 2, n * nobj)
    if kind == "coincident":
        x[:] = x[0]
    elif kind == "collinear":
        x = 5 + np.outer(rng.normal(size=len(x)), rng.normal(size=3)) * .3
    elif kind == "coplanar":
        x[:, int(rng.integers(3))] = 5
    elif kind == "huge":
        x *= 10.0 ** rng.integers(5, 150)
    elif kind == "tiny":
        x = (x - 5) * 10.0 ** -float(rng.integers(5, 150))
    elif kind == "outside the box":
        x += rng.normal(size=3) * 50
    elif kind == "massless":
        m[rng.random(len(m)) < rng.choice([.5, 1.0])] = 0
    elif kind == "negative mass":
        m[::2] *= -1
    elif kind == "wide":
        x = rng.uniform(0, 10, x.shape)
    elif kind == "nan":
        x[int(rng.integers(len(x))), int(rng.integers(3))] = np.nan
    elif kind == "inf":
        x[int(rng.integers(len(x))), int(rng.integers(3))] = rng.choice([np.inf, -np.inf])
    elif kind == "lattice":
        x = np.round(x * 4) / 4
    elif kind == "heavy":
        m *= 10.0 ** rng.integers(100, 305)
    idx = [np.arange(k * n, (k + 1) * n, dtype=np.int32) for k in range(nobj)]
    if kind == "with itself":
        idx = [np.repeat(i, 2) for i in idx]
    r200 = np.full(nobj, float(rng.choice([0.0, 1e-300, .3, .3, 1.0, 1e300, np.nan])))
    rk = str(rng.choice(["usual", "zero", "huge", "backwards", "repeated", "single", "many"]))
    R = {"usual": np.logspace(-1, .3, 7), "zero": np.zeros(6), "huge": np.full(5, 1e200) * np.arange(1, 6), "backwards": np.linspace(1, .1, 6),
         "repeated": np.repeat([.2, .5, 1.], 3), "single": np.array([.7]), "many": np.linspace(.01, 2, 60)}[rk]
    cfg = dict(ROverR200=R, IT_TOL=float(rng.choice([0.0, 1e-2, 1e-300, 10.0])), IT_WALL=int(rng.choice([0, 1, 2, 30])), IT_MIN=int(rng.choice([0, 1, 3, 10])),
               REDUCED=bool(rng.random() < .5), SHELL_BASED=bool(rng.random() < .5))
    nt = int(rng.choice([1, 1, 3]))
    set_threads(nt)
    center = str(rng.choice(["mode", "com"]))
    ctx.describe(kind=kind, n=n, nobj=nobj, L=L, r200=r200, radii=rk, katz={k: np.asarray(v).tolist() for k, v in cfg.items() if k != "ROverR200"}, center=center)
    import cosmic_profiles as cp
    with Garbage(int(rng.choice([0xff, 0x41, 0x7f]))):
        o = call(ctx, rep, "constructor", lambda: cp.DensShapeProfs(x, m, idx, r200, L, "000", "viz", "cat", MIN_NUMBER_PTCS=1, CENTER=center), False)
        if o is None:
            return
        everything(ctx, rep, o, list(range(nobj)), cfg, R, False, rng)
    ctx.ev("hostile: " + kind)
    ctx.sig("hostile", kind, rk, nt, float(r200[0]), cfg["IT_WALL"], cfg["IT_MIN"])


def simulation(ctx, rng, rep, d):
    """Snapshots, also with group tables that contradict each other."""
    import cosmic_profiles as cp
    from cosmic_profiles.gadget.gen_catalogues import calcObjCat
    typ = str(rng.choice(["dm", "stars", "gas"]))
    ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 5)), nmin=12, nmax=200, velocities=True, overlap=False, periodic=True)
    cp.updateInUnitSystem("kpc/h", "E+10Msun/h", "km/s", gen.H)
    cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", gen.H)
    part, fof, subs, cat = snap.population(rng, cat, (1e3, 1.0, 1.0), ptype, 10)
    sp = snap.write_hdf5(os.path.join(d, "snap_024"), {ptype: part}, snap.header(rng, BoxSize=cat.L * 1e3, Redshift=0.0, Time=1.0), 1, rng)
    snap.write_fof(os.path.join(d, "g"), fof, subs, 1, rng)
    cfg = gen.katz(rng, IT_MIN=int(rng.choice([1, 5])))
    set_threads(int(rng.choice([1, 1, 3])))
    ctx.describe(meta=cat.meta, type=typ, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    with Garbage(0xff):
        o = call(ctx, rep, "snapshot", lambda: cp.DensShapeProfsGadget(sp, os.path.join(d, "g"), typ, "024", d + "/viz", d + "/cat", MIN_NUMBER_PTCS=10), True)
        n = len(o.getIdxCat()[1])
        sel = rng.permutation(n).tolist()
        if n:
            call(ctx, rep, "velocity local", lambda: o.getShapeCatVelLocal(sel, cfg), True)
            call(ctx, rep, "velocity global", lambda: o.getShapeCatVelGlobal(sel, cfg), True)
        # the loops behind the catalogue, on tables of any kind
        for _ in range(6):
            ng = int(rng.integers(1, 12))
            nsubs = rng.integers(0, 4, ng).astype(np.int32)
            ns = max(0, int(nsubs.sum()) + int(rng.choice([0, 0, 0, -1, 1, -3])))
            a = [nsubs, rng.integers(0, 40, ns).astype(np.int32), rng.integers(0, 200, ng).astype(np.int32), rng.uniform(0, 1, ng)]
            k = int(rng.integers(4))
            if rng.random() < .3 and len(a[k]) > 1:
                a[k] = a[k][:-1]
            if rng.random() < .2:
                a[k] = a[k].copy()
                if len(a[k]):
                    a[k][int(rng.integers(len(a[k])))] = -int(rng.integers(1, 5)) if k < 3 else np.nan
            call(ctx, rep, "tables", lambda: calcObjCat(*a, int(rng.integers(1, 20))), False)
        ctx.sig("sim", typ, n)


def leak(ctx, rng, rep):
    """The same call again and again takes no further memory."""
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=40, nmax=120)
    o, _ = gen.make(cat, os.getcwd(), str(rng.choice(["mode", "com"])))
    sel = list(range(len(cat.idx)))
    cfg = gen.katz(rng, ROverR200=np.logspace(-.7, .1, 6))
    R = np.logspace(-1, 0, 6)
    set_threads(int(rng.choice([1, 2])))
    ctx.describe(meta=cat.meta, katz={k: np.asarray(v).tolist() for k, v in cfg.items()})
    ops = {"local": lambda: o.getShapeCatLocal(sel, cfg), "global": lambda: o.getShapeCatGlobal(sel, cfg), "centres": lambda: o.getMassesCenters(sel),
           "sph": lambda: o.estDensProfs(R, sel, True, True), "ell": lambda: o.estDensProfs(R, sel, True, False, cfg), "kernel": lambda: o.estDensProfs(R, sel, False, True)}
    for k, f in ops.items():
        grown = []
        for _ in range(5):
            for _ in range(4):
                with ctx.target("again: " + k):
                    f()
            gc.collect()
            grown.append(HEAP())
        steps = np.diff(grown)
        # allocations of the interpreter come and go; a leak takes memory in every round
        ctx.check(not (steps[1:] >= 4 * 16).all(), "nothing is lost: " + k, heap=grown)
        txt = rep.new()
        ctx.check("runtime error" not in txt and "ERROR: AddressSanitizer" not in txt, "leak: no sanitizer report", report=txt[:3500])
        ctx.sig("leak", k, len(sel))
