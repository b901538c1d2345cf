"""C28: an operation that fails says so, and leaves nothing behind that changes what is asked for later."""
import contextlib, errno, gc, os, resource, shutil, signal, subprocess, sys
import numpy as np
import figs, gen, snap
from harness import Skip, set_threads, load

c05 = load("c05")
SHAPE = ["getShapeCatLocal", "getShapeCatGlobal"]
VSHAPE = ["getShapeCatVelLocal", "getShapeCatVelGlobal"]
DUMPS = {"dumpShapeCatLocal": "getShapeCatLocal", "dumpShapeCatGlobal": "getShapeCatGlobal"}
VDUMPS = {"dumpShapeVelCatLocal": "getShapeCatVelLocal", "dumpShapeVelCatGlobal": "getShapeCatVelGlobal"}


def run(ctx):
    base = os.getcwd()
    os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[ctx.shard % len(os.sched_getaffinity(0))]})      # one worker in the pools of the fits
    for stream, fn, q, t, until in (("", one, 320, 12000, .7), ("gone", gone, 120, 5000, .85), ("kill", kill, 24, 900, 1.0)):
        for i, rng in ctx.cases(q, t, stream, until=until):
            d = os.path.join(base, "f%s_%d" % (ctx.case, ctx.seed))
            os.makedirs(d)
            try:
                fn(ctx, rng, d)
            except Skip:
                pass
            finally:
                os.chdir(base)
                gen.internal_units()
                shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- workload

def setup(ctx, rng, d):
    import cosmic_profiles as cp
    gen.internal_units()
    set_threads(int(rng.integers(1, 5)))
    gadget = rng.random() < .4
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 5)), nmin=40, nmax=120, velocities=True, overlap=not gadget, periodic=True if gadget else None)
    center = str(rng.choice(["mode", "com"]))
    if gadget:
        part, fof, subs, cat = snap.population(rng, cat, (1.0, 1.0, 1.0), 1, 10)
        snap.write_hdf5(os.path.join(d, "snap_024"), {1: part}, snap.header(rng, BoxSize=cat.L, Redshift=0.0, Time=1.0), int(rng.choice([1, 2])), rng)
        snap.write_fof(os.path.join(d, "g"), fof, subs, int(rng.choice([1, 2])), rng)

        def make(tag):
            return cp.DensShapeProfsGadget(os.path.join(d, "snap_024"), os.path.join(d, "g"), "dm", "024", os.path.join(d, "viz" + tag), os.path.join(d, "cat" + tag),
                                           MIN_NUMBER_PTCS=10, CENTER=center)
    else:
        idx = [np.int32(i) for i in cat.idx]

        def make(tag):
            return cp.DensShapeProfs(cat.xyz, cat.m, idx, cat.r200, cat.L, "000", os.path.join(d, "viz" + tag), os.path.join(d, "cat" + tag), MIN_NUMBER_PTCS=1, CENTER=center)
    cfg = gen.katz(rng, nr=int(rng.integers(1, 7)), IT_MIN=5, IT_WALL=100)
    R = np.logspace(-1, 0, int(rng.integers(5, 9)))
    meth = {"profile": "nfw", "min_method": "Nelder-Mead"}
    n = len(cat.idx)
    sel = [int(k) for k in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    dens = np.abs(rng.normal(size=(len(sel), len(R)))) + 1
    ops = {
        "getMassesCenters": lambda o: o.getMassesCenters(sel),
        "getShapeCatLocal": lambda o: o.getShapeCatLocal(sel, cfg),
        "getShapeCatGlobal": lambda o: o.getShapeCatGlobal(sel, cfg),
        "estDensProfs, spherical": lambda o: o.estDensProfs(R, sel, True, True),
        "estDensProfs, ellipsoidal": lambda o: o.estDensProfs(R, sel, True, False, cfg),
        "estDensProfs, kernel": lambda o: o.estDensProfs(R, sel, False),
        "fitDensProfs": lambda o: o.fitDensProfs(dens, R, meth, sel),
        "estConcentrations": lambda o: o.estConcentrations(dens, R, meth, sel),
        "getXYZMasses": lambda o: np.hstack([np.asarray(o.getXYZMasses()[0]), np.asarray(o.getXYZMasses()[1])[:, None]]),
        "getR200": lambda o: np.asarray(o.getR200()),
        "plotShapeProfs": lambda o: drawn(lambda: o.plotShapeProfs(2, sel, cfg)),
        "plotDensProfs": lambda o: drawn(lambda: o.plotDensProfs(dens, R, dens, R, meth, 2, sel)),
        "plotLocalTHist": lambda o: drawn(lambda: o.plotLocalTHist(5, .5, sel, cfg)),
        "plotGlobalTHist": lambda o: drawn(lambda: o.plotGlobalTHist(5, sel, cfg)),
        "plotLocalEpsHist": lambda o: drawn(lambda: o.plotLocalEpsHist(.5, 5, sel)),
        "plotGlobalEpsHist": lambda o: drawn(lambda: o.plotGlobalEpsHist(5, sel)),
        "vizLocalShapes": lambda o: drawn(lambda: o.vizLocalShapes(sel[:1], cfg)),
        "vizGlobalShapes": lambda o: drawn(lambda: o.vizGlobalShapes(sel[:1], cfg)),
        "dumpShapeCatLocal": lambda o: o.dumpShapeCatLocal(sel, cfg),
        "dumpShapeCatGlobal": lambda o: o.dumpShapeCatGlobal(sel, cfg),
    }
    if gadget:
        ops.update({"getShapeCatVelLocal": lambda o: o.getShapeCatVelLocal(sel, cfg), "getShapeCatVelGlobal": lambda o: o.getShapeCatVelGlobal(sel, cfg),
                    "getVelXYZ": lambda o: np.asarray(o.getVelXYZ()),
                    "dumpShapeVelCatLocal": lambda o: o.dumpShapeVelCatLocal(sel, cfg), "dumpShapeVelCatGlobal": lambda o: o.dumpShapeVelCatGlobal(sel, cfg)})
    bad = {
        "selection": lambda o: o.getShapeCatLocal([n + 3], cfg),
        "settings": lambda o: o.getShapeCatGlobal(sel, {k: v for k, v in cfg.items() if k != "REDUCED"}),
        "rows": lambda o: o.fitDensProfs(np.vstack([dens, dens]), R, meth, sel),
        "radii": lambda o: o.estDensProfs(R[:2], sel, True, False, cfg),
        "parameter": lambda o: o.fitDensProfs(dens, R, dict(meth, alpha=1.0), sel),
    }
    ctx.describe(meta=cat.meta, gadget=gadget, sel=sel, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, R=R, center=center)
    return cat, make, ops, bad, cfg, sel, gadget, n


def drawn(fn):
    """What a plotting operation draws, as a list of arrays."""
    f = figs.collect(fn)
    out = []
    for name in sorted(f):
        for a in f[name]["axes"]:
            out += [np.concatenate([l["x"], l["y"]]) for l in a["lines"]] + [np.asarray(a["bars"], float).ravel()]
            out += [np.asarray(p.get("xyz", p.get("xy")), float).ravel() for p in a["points"]] + [p["v"].ravel() for p in a["fills"]]
            out += [np.asarray(x, float).ravel() for x in a["arrows"]]
    return [len(f)] + out


def same(a, b):
    if isinstance(a, list):
        if len(a) != len(b) or a[0] != b[0]:
            return False, "figures drawn"
        for x, y in zip(a[1:], b[1:]):
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-9 * (np.nanmax(np.abs(x), initial=0)), equal_nan=True):
                return False, "a curve"
        return True, None
    if a is None:
        return True, None
    return c05.same(a, b)


def files(d, tag):
    out = {}
    p = os.path.join(d, "cat" + tag)
    for r, _, ff in os.walk(p):
        for f in ff:
            out[os.path.relpath(os.path.join(r, f), p)] = open(os.path.join(r, f), errors="replace").read()
    return out


def numbers(a, b):
    """Two dumped files hold the same numbers (the second may have been made from a dump itself)."""
    a, b = [np.array(x.split(), dtype=float) for x in (a, b)]
    return a.shape == b.shape and np.allclose(a, b, rtol=2e-7, atol=0, equal_nan=True)


# ---------------------------------------------------------------- faults

class Tap:
    """Standard output that fails at the k-th write."""
    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            self.fired = True
            raise self.exc
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


@contextlib.contextmanager
def output(tap):
    old = sys.stdout
    sys.stdout = tap
    try:
        yield
    finally:
        sys.stdout = old


_state = dict(dirs=(), left=None, size=0, on=False)


def _hook(event, args):
    """Counts files opened for writing below the watched directories; from the k-th on no file may grow beyond a size."""
    if not _state["on"] or event != "open" or not isinstance(args[0], str):
        return
    mode, flags = args[1], args[2] or 0
    if not ((mode and any(c in mode for c in "wa+x")) or flags & (os.O_WRONLY | os.O_RDWR)):
        return
    if not os.path.abspath(args[0]).startswith(_state["dirs"]):
        return
    if args[0] == _state["last"]:           # savetxt opens a file twice
        return
    _state["last"] = args[0]
    _state["left"] -= 1
    if _state["left"] == 0:
        _state["fired"] = True
        _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (_state["size"], hard))
    elif _state["left"] == -1 and _state["brief"]:      # space was made
        resource.setrlimit(resource.RLIMIT_FSIZE, _state["old"])


_hooked = []


@contextlib.contextmanager
def disk(dirs, k, size, brief=False):
    """A disk that fills up while the k-th file is written (brief: there is room again for the next one)."""
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked.append(1)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    before = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    _state.update(dirs=tuple(dirs), left=k, size=size, on=True, fired=False, last=None, brief=brief, old=old)
    try:
        yield
    finally:
        _state["on"] = False
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, before)


def one(ctx, rng, d):
    from cosmic_profiles.common import config
    import cosmic_profiles as cp
    cat, make, ops, bad, cfg, sel, gadget, n = setup(ctx, rng, d)
    writers = [k for k in ops if k.startswith(("plot", "viz", "dump"))]
    kinds = ["stop", "disk", "blocked", "refused"]
    kind = str(rng.choice(kinds, p=[.4, .3, .15, .15]))
    name = str(rng.choice(list(ops) if kind in ("stop", "refused") else [k for k in writers if kind == "blocked" or k.startswith("dump")]))
    if rng.random() < .3:       # other output units, which must survive
        cp.updateOutUnitSystem("kpc", "Msun", "km/s", .7)
    ctx.describe(fault=kind, operation=name)
    with ctx.target("constructor"):
        o = make("A")
        if rng.random() < .5:
            o.getMassesCenters(sel)
    kept = [cat.xyz.copy(), cat.m.copy(), cat.r200.copy()]
    units = {k: v for k, v in vars(config).items() if isinstance(v, (int, float, str)) and not k.startswith("_")}
    plt = figs.plt
    err, fired = None, True
    where = {}
    try:
        if kind == "stop":
            exc = [KeyboardInterrupt(), OSError(errno.EPIPE, "broken pipe"), OSError(errno.ENOSPC, "no space")][int(rng.integers(3))]
            tap = Tap(int(rng.choice([1, 2, 3, 4, 5, 7, 9])), exc)
            where = dict(write=tap.k, error=repr(exc))
            with output(tap):
                try:
                    ops[name](o)
                finally:
                    fired = tap.fired
        elif kind == "disk":
            k, size = int(rng.integers(1, 11)), int(rng.choice([0, 10, 60, 200]))
            where = dict(file=k, size=size, brief=bool(rng.random() < .5))
            with disk([d], k, size, where["brief"]):
                try:
                    ops[name](o)
                finally:
                    fired = _state["fired"]
        elif kind == "blocked":
            p = os.path.join(d, "catA" if name.startswith("dump") else "vizA")
            open(p, "w").close()
            try:
                ops[name](o)
            finally:
                os.remove(p)
        else:
            which = str(rng.choice(list(bad)))
            where = dict(which=which)
            bad[which](o)
    except (Exception, KeyboardInterrupt) as e:
        err = e
    ctx.describe(where=where)
    ctx.ev("%s: %s" % (kind, "failed" if err is not None else "not reached" if not fired else "went through"))
    if kind == "disk" and fired and err is None:
        big = any(len(v) > where["size"] for v in files(d, "A").values())
        small = all(len(v) <= where["size"] for v in files(d, "A").values())
        ctx.ev("files that fit", int(small and not big))
    elif kind == "disk" and not fired:
        ctx.check(err is None, "an operation that nothing disturbs succeeds", operation=name, error=repr(err), where=where)
    elif kind == "stop":
        ctx.check(not fired or err is not None, "an interruption is passed on", operation=name, where=where)
    else:
        ctx.check(err is not None, "a failure is reported", operation=name, kind=kind, where=where)
    ctx.ev("faults that struck", int(fired))
    # the instance, another instance, and everything else are as before
    now = {k: v for k, v in vars(config).items() if isinstance(v, (int, float, str)) and not k.startswith("_")}
    ctx.check(now == units, "units survive a failure", operation=name, before=units, after=now)
    ctx.check(np.array_equal(kept[0], cat.xyz) and np.array_equal(kept[1], cat.m) and np.array_equal(kept[2], cat.r200), "the caller's data survive a failure", operation=name)
    plt.close("all")
    fresh = make("B")
    dumps = dict(DUMPS, **VDUMPS)
    if name in dumps:       # what was left of the dump is not a result
        g = dumps[name]
        with ctx.target(g + " on a fresh instance"):
            ref = ops[g](fresh)
        for w, x in (("same", o), ("new", make("A"))):
            try:
                got = ops[g](x)
            except Exception as e:
                ctx.ev("what is left is refused: " + type(e).__name__)
                continue
            ok, why = c05.same(ref, got, rtol=2e-7)
            ctx.check(ok, "what a failed dump left is not taken for a result", why=why, instance=w, operation=name, where=where)
    then = [name] + [str(k) for k in rng.choice([k for k in ops if not k.startswith("dump")], 2)]
    for k in then:
        if k in dumps:
            with ctx.target(k + " again"):
                ops[k](o)
            with ctx.target(k + " on a fresh instance"):
                ops[k](fresh)
            a, b = files(d, "A"), files(d, "B")
            if ctx.check(set(a) >= set(b), "after a failure: a dump is complete", missing=sorted(set(b) - set(a)), operation=k):
                diff = [f for f in b if not numbers(a[f], b[f])]
                ctx.check(not diff, "after a failure: a dump holds the results", files=diff, operation=k, where=where)
            continue
        if name in dumps and ("Shape" in k or "ellipsoidal" in k):
            continue        # these take up the dump, as C15 checks
        with ctx.target(k + " after a failure"):
            got = ops[k](o)
        with ctx.target(k + " on a fresh instance"):
            ref = ops[k](fresh)
        ok, why = same(ref, got)
        ctx.check(ok, "after a failure: same as on a fresh instance", operation=k, failed=name, kind=kind, why=why, where=where)
    ctx.sig(kind, name, tuple(sorted(where.items())) if kind != "refused" else where["which"], gadget)


def opened():
    out = []
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out.append(os.readlink("/proc/self/fd/" + f))
    return out


def gone(ctx, rng, d):
    """Files that are missing or damaged for a while."""
    import cosmic_profiles as cp
    gen.internal_units()
    set_threads(2)
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=40, nmax=120, velocities=True, overlap=False, periodic=True)
    with ctx.target("a stored simulation"):
        o, cat = snap.simulation(rng, cat, d)
    d2 = os.path.join(d, "copy")            # never opened so far
    os.makedirs(d2)
    for f in os.listdir(d):
        if f.startswith(("snap", "g")):
            (shutil.copytree if os.path.isdir(os.path.join(d, f)) else shutil.copy)(os.path.join(d, f), os.path.join(d2, f))
    parts = []
    for r, _, ff in os.walk(d2):
        parts += [os.path.join(r, f) for f in ff]
    victim = str(rng.choice(sorted(parts)))
    how = str(rng.choice(["missing", "cut", "empty", "rows"]))
    if how == "rows" and not victim.endswith(".hdf5"):
        how = "cut"
    n = len(cat.idx)
    ctx.describe(meta=cat.meta, victim=os.path.basename(victim), how=how)
    blob = open(victim, "rb").read()
    o2 = None
    if rng.random() < .5:
        with ctx.target("opening a copy"):
            o2 = snap.reopen(d2)

    def ask(x, what):
        if what == "catalogue":
            return np.concatenate([np.asarray(v, float).ravel() for v in x.getIdxCat()])
        if what == "radii":
            return np.asarray(x.getR200(), float)
        if what == "particles":
            a, b = x.getXYZMasses()
            return np.hstack([np.asarray(a), np.asarray(b)[:, None]])
        if what == "velocities":
            return np.asarray(x.getVelXYZ())
        if what == "shapes":
            return x.getShapeCatVelGlobal(np.arange(n), gcfg)
        return x.getMassesCenters(np.arange(n))
    gcfg = dict(ROverR200=np.array([.5, 1.0]), IT_TOL=1e-2, IT_WALL=100, IT_MIN=5, REDUCED=False, SHELL_BASED=False)
    whats = ["catalogue", "radii", "particles", "velocities", "shapes", "centres"]
    truth = {"catalogue": np.concatenate([np.concatenate(cat.idx).astype(float), [len(i) for i in cat.idx]]), "radii": np.asarray(cat.r200, float),
             "particles": np.hstack([cat.xyz, cat.m[:, None]]), "velocities": cat.v}
    with ctx.target("a request"):
        truth.update({w: ask(o, w) for w in ("shapes", "centres")})

    def right(got, w, when, **kw):
        if w in ("shapes", "centres"):
            ok, why = c05.same(truth[w], got)
            ctx.check(ok, "%s: %s" % (when, w), why=why, victim=os.path.basename(victim), how=how, **kw)
        else:
            ctx.close(got, truth[w], "%s: %s" % (when, w), rtol=2e-6, atol=1e-9, victim=os.path.basename(victim), how=how, **kw)
    try:
        if how == "missing":
            os.remove(victim)
        elif how == "rows":
            how = "rows of %s: %d of %d" % (snap.shorten(rng, victim) or ("nothing", 0, 0))
        else:
            with open(victim, "wb") as f:
                f.write(blob[:0 if how == "empty" else int(len(blob) * rng.uniform(.02, .98))])
        failed, last = 0, None
        hold = rng.random() < .5        # an interactive session keeps the last exception, with its traceback
        for w in [str(x) for x in rng.permutation(whats)[:3]]:
            for x in (o2, None):
                try:
                    got = ask(x if x is not None else snap.reopen(d2), w)
                except (SystemExit, Exception) as e:
                    failed += 1
                    last = e if hold else None
                else:
                    right(got, w, "a file is damaged, but the request is answered")
        ctx.ev("requests that failed", failed)
        ctx.ev("requests that were answered from what was left or remembered", 6 - failed)
    finally:
        with open(victim, "wb") as f:
            f.write(blob)
    if not failed:
        return
    # the files are back: what was asked for in between must not matter
    with ctx.target("opening again"):
        b = snap.reopen(d2)
    for w in whats:
        with ctx.target(w + " once the files are back"):
            got = ask(b, w)
        right(got, w, "once the files are back", last_exception_kept=repr(last)[:100])
    ctx.ev("the last exception is kept meanwhile", last is not None)
    last = None
    gc.collect()
    left = [x for x in opened() if x.startswith(os.path.abspath(d2) + os.sep)]
    ctx.check(not left, "no file of the simulation is left open", files=[os.path.basename(x) for x in left])
    ctx.sig("gone", how.split()[0], os.path.basename(victim).split(".")[0], failed)


CHILD = r'''
import os, resource, signal, sys
import numpy as np
z = np.load(sys.argv[1], allow_pickle=True)
k, size, dest, op = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
import cosmic_profiles as cp
U = dict(length_in_cm="Mpc/h", mass_in_g="E+10Msun/h", velocity_in_cm_per_s="km/s", little_h=0.6774)
cp.updateInUnitSystem(**U); cp.updateOutUnitSystem(**U)
cfg = z["cfg"].item()
o = cp.DensShapeProfs(z["xyz"], z["m"], list(z["idx"]), z["r200"], float(z["L"]), "000", dest + "/viz", dest, MIN_NUMBER_PTCS=1, CENTER=str(z["center"]))
left = [k]
def hook(event, args):
    if event == "open" and isinstance(args[0], str) and os.path.abspath(args[0]).startswith(os.path.abspath(dest)) and (
            (args[1] and any(c in args[1] for c in "wax+")) or (args[2] or 0) & 3):
        left[0] -= 1
        if left[0] == 0:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
sys.addaudithook(hook)
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
getattr(o, op)(z["sel"].tolist(), cfg)
'''


def kill(ctx, rng, d):
    """A process that dies while it dumps; another one takes over."""
    import cosmic_profiles as cp
    gen.internal_units()
    set_threads(1)
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 4)), nmin=40, nmax=120, overlap=False)
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    cfg = gen.katz(rng, nr=int(rng.integers(1, 5)), IT_MIN=5, IT_WALL=100)
    op = str(rng.choice(list(DUMPS)))
    k, size = int(rng.integers(1, 19)), int(rng.choice([0, 0, 7, 20, 37]))
    again = rng.random() < .4           # over a catalogue that is complete already
    ctx.describe(meta=cat.meta, operation=op, file=k, size=size, again=again, sel=sel)
    idx = np.empty(n, object)
    for j, i in enumerate(cat.idx):
        idx[j] = np.int32(i)
    p = os.path.join(d, "in.npz")
    np.savez(p, xyz=cat.xyz, m=cat.m, idx=idx, r200=cat.r200, L=cat.L, center="com", sel=sel, cfg=np.array(cfg, object))
    dest = os.path.join(d, "cat")

    def make(dest):
        return cp.DensShapeProfs(cat.xyz, cat.m, list(idx), cat.r200, cat.L, "000", d + "/viz", dest, MIN_NUMBER_PTCS=1, CENTER="com")
    with ctx.target(DUMPS[op]):
        ref = getattr(make(os.path.join(d, "none")), DUMPS[op])(sel, cfg)
    if again:
        with ctx.target(op):
            getattr(make(dest), op)(sel, cfg)
    env = {a: b for a, b in os.environ.items() if not a.startswith(("OMPI_", "PMIX_", "PMI_", "ORTE_"))}
    env["OMP_NUM_THREADS"] = "1"
    env["PYTHONPATH"] = os.pathsep.join(x for x in sys.path if x)
    r = subprocess.run([sys.executable, "-c", CHILD, p, str(k), str(size), dest, op], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240)
    died = r.returncode == -signal.SIGXFSZ
    if not died and r.returncode != 0:
        ctx.undec("the other process failed otherwise: " + r.stderr.decode(errors="replace")[-200:])
        raise Skip
    ctx.ev("processes killed while dumping", int(died))
    for what in ("after a crash", "after dumping once more"):
        o = make(dest)
        try:
            got = getattr(o, DUMPS[op])(sel, cfg)
        except Exception as e:
            if what != "after a crash":
                ctx.fail("after a crash and another dump: results are returned", error=repr(e), file=k, size=size)
                return
            ctx.ev("what a crash left is refused: " + type(e).__name__)
        else:
            ok, why = c05.same(ref, got, rtol=2e-7)
            ctx.check(ok, "what a crash left is not taken for a result", why=why, when=what, file=k, size=size, again=again)
        if what == "after a crash":
            with ctx.target(op + " after a crash"):
                getattr(o, op)(sel, cfg)
    a = files(d, "")
    b = make(os.path.join(d, "catZ"))
    with ctx.target(op):
        getattr(b, op)(sel, cfg)
    z = files(d, "Z")
    if ctx.check(set(a) >= set(z), "after a crash: a dump is complete", missing=sorted(set(z) - set(a))):
        diff = [f for f in z if not numbers(a[f], z[f])]
        ctx.check(not diff, "after a crash: a dump holds the results", files=diff, file=k, size=size, again=again)
    ctx.sig("kill", op, k, size, died, again)
