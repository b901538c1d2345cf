"""C20: under MPI, the results and files of rank 0 do not depend on the number of processes, and every process finishes."""
import os, pickle, shutil, signal, subprocess, sys
import numpy as np
import gen, snap
from harness import Skip, VERIF

MPIEXEC = shutil.which("mpiexec")
BASIC = ["refused local", "refused dump", "refused fit", "refused plot", "members", "radii", "centres", "particles", "local", "global", "sph", "kernel", "ell", "dump local", "dump global", "plot shapes", "plot T", "plot eps", "viz",
         "concentrations", "fit", "plot densities", "info"]
SIM = ["velocities", "header", "velocity local", "velocity global", "dump velocity local", "dump velocity global"]


def run(ctx):
    tmp = os.getcwd()
    for i, rng in ctx.cases(16, 400):
        d = os.path.join(tmp, "m%s" % ctx.case)
        try:
            one(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def make(ctx, rng, d, k, damage=False):
    """One case for the driver."""
    cat = gen.catalogue(rng, nobj=int(rng.choice([1, 2, 3, 4, 5, 12])), nmin=40, nmax=150, velocities=True, overlap=False, periodic=True)
    n = len(cat.idx)
    cfg = gen.katz(rng, ROverR200=np.logspace(-.7, .1, 6), IT_MIN=5)
    c = dict(sel=rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist(), cfg=cfg, R=np.logspace(-1, 0, 6), center=str(rng.choice(["mode", "com"])))
    names = list(BASIC)
    if rng.random() < .75:
        typ = str(rng.choice(["dm", "stars", "gas"]))
        ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
        # groups of other kinds around the objects, and more or fewer files than processes, some of them without any group
        part, fof, subs, _ = snap.population(rng, cat, (1e3, 1.0, 1.0), ptype, 10)
        nf = int(rng.choice([1, 2, 3, 4, 5, 7, 12]))
        sp = snap.write_hdf5(os.path.join(d, "s%d" % k, "snap_024"), {ptype: part}, snap.header(rng, BoxSize=cat.L * 1e3, Redshift=0.0, Time=1.0),
                             int(rng.choice([1, 3])), rng)
        g = os.path.join(d, "g%d" % k)
        snap.write_fof(g, fof, subs, nf, rng)
        if damage and rng.random() < .6:
            victim = os.path.join(g, str(rng.choice(sorted(os.listdir(g)))))
            if rng.random() < .5:
                snap.shorten(rng, victim)
            else:
                os.truncate(victim, int(os.path.getsize(victim) * rng.uniform(.02, .9)))
            ctx.ev("damaged group files")
            c["damaged"] = True
        c.update(kind="snapshot", snap=sp, groups=g, type=typ, minpt=10)
        names += SIM
        label = "snapshot, %d group files, %d groups" % (nf, len(fof["nsubs"]))
    else:
        c.update(kind="arrays", xyz=cat.xyz, m=cat.m, idx=[np.int32(i) for i in cat.idx], r200=cat.r200, L=cat.L)
        nf, label = 0, "arrays"
    c["ops"] = [str(s) for s in rng.permutation(names)[:int(rng.integers(5, 10))]]
    return c, label, nf


def launch(n, src, out, log):
    env = dict(os.environ, OMP_NUM_THREADS="1", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_orte_tmpdir_base=os.environ["TMPDIR"])
    cmd = [sys.executable, os.path.join(VERIF, "lib", "mpi_driver.py"), src, out]
    if n > 0:
        cmd = [MPIEXEC, "--allow-run-as-root", "--oversubscribe", "-n", str(n)] + cmd
    os.makedirs(out)
    with open(log, "w") as f:
        # its own process group: when one process stands still, all of them are ended
        p = subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(150)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
    return rc, open(log, errors="replace").read()[-1500:]


def one(ctx, rng, d):
    src = os.path.join(d, "in")
    os.makedirs(src)
    cases = {}
    for k in range(3):
        c, label, nf = make(ctx, rng, d, k, k == 0)
        cases["%d.case" % k] = (c, label, nf)
        pickle.dump(c, open(os.path.join(src, "%d.case" % k), "wb"))
    n = int(rng.choice([2, 2, 3, 4, 5, 6]))
    ctx.describe(processes=n, cases=[l for _, l, _ in cases.values()], ops=[c["ops"] for c, _, _ in cases.values()])
    rc, log = launch(0, src, os.path.join(d, "one"), os.path.join(d, "one.log"))
    ctx.check(rc == 0, "a single process finishes", log=log)
    if rc != 0:
        raise Skip()
    rc, log = launch(n, src, os.path.join(d, "many"), os.path.join(d, "many.log"))
    ctx.check(rc is not None, "every process finishes", log=log, processes=n)
    if rc is not None and rc != 0 and not os.path.exists(os.path.join(d, "many", "rank0.pkl")):
        ctx.check(False, "every process finishes", log=log, exit=rc)
    missing = [r for r in range(n) if not os.path.exists(os.path.join(d, "many", "rank%d.pkl" % r))]
    if rc is None or missing:
        ctx.check(rc is None or not missing, "every process finishes", missing=missing, log=log)
        raise Skip()
    ref = pickle.load(open(os.path.join(d, "one", "rank0.pkl"), "rb"))
    got = [pickle.load(open(os.path.join(d, "many", "rank%d.pkl" % r), "rb")) for r in range(n)]
    for name, (c, label, nf) in cases.items():
        for r in range(n):
            bad = {k: v for k, v in got[r][name].items() if isinstance(v, str) and v.startswith("raised")}
            if r == 0:
                bad = {k: v for k, v in bad.items() if not (isinstance(ref[name].get(k), str) and (ref[name][k] == v or
                       k == "constructor" and ref[name][k].startswith("raised") and c.get("damaged")))}     # whichever file is met first
            else:
                bad = {k: v for k, v in bad.items() if not str(ref[name].get(k)).startswith("raised")}
            ctx.check(not bad, "no process fails where one alone succeeds", rank=r, of=n, raised=bad, tb=got[r][name].get("traceback"))
        a, b = ref[name], got[0][name]
        ctx.check("constructor" not in a or c.get("damaged"), "a single process opens it", raised=a.get("constructor"), case=label)
        if "constructor" in a:
            ctx.check(all("constructor" in x[name] for x in got), "a failure to open is told to every process", processes=n, case=label, raised=[x[name].get("constructor") for x in got])
            ctx.ev("failures to open, on every process")
        for k in c["ops"]:
            ok, why = equal(a.get(k), b.get(k))
            ctx.check(ok, "%s: same on any number of processes" % c["kind"], operation=k, processes=n, case=label, difference=why)
            ctx.ev("operation: " + k)
        ok, why = equal(a.get("files"), b.get("files"))
        ctx.check(ok, "files are the same on any number of processes", difference=why, processes=n)
        ctx.ev("files compared", len(a.get("files") or {}))
        if nf:
            ctx.ev("more processes than group files" if n > nf else "more group files than processes" if nf > n else "as many group files as processes")
        ctx.sig(n, nf, c["kind"], tuple(sorted(c["ops"])))


def equal(a, b):
    if type(a) != type(b):
        return False, (repr(a)[:200], repr(b)[:200])
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            return False, (sorted(a), sorted(b))
        for k in a:
            ok, w = equal(a[k], b[k])
            if not ok:
                return False, (k, w)
        return True, None
    if isinstance(a, list):
        if len(a) != len(b):
            return False, (len(a), len(b))
        for x, y in zip(a, b):
            ok, w = equal(x, y)
            if not ok:
                return False, w
        return True, None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False, (a.shape, b.shape)
        if a.dtype.kind in "fc":
            ok = np.allclose(a, b, rtol=1e-9, atol=1e-12 * (np.nanmax(np.abs(a)) if a.size and np.isfinite(a).any() else 1), equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        return bool(ok), None if ok else (a.ravel()[:6], b.ravel()[:6])
    if isinstance(a, bytes):
        if a == b:
            return True, None
        try:
            x, y = (np.array([float(t) for t in s.split()]) for s in (a, b))
            return equal(x, y)
        except ValueError:
            return False, (a[:100], b[:100])
    return a == b, None if a == b else (repr(a)[:200], repr(b)[:200])
