"""Runs the cases of a directory on every rank: mpiexec -n K python mpi_driver.py DIR OUT.

Rank 0 writes what it got, the other ranks what they raised (they have no results)."""
import os, pickle, sys, traceback
import warnings
warnings.simplefilter("ignore")
import numpy as np
from mpi4py import MPI

comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
src, out = sys.argv[1:3]
import gen                                                                          # noqa: E402
import cosmic_profiles as cp                                                        # noqa: E402


def plain(x):
    if x is None or isinstance(x, (int, float, str)):
        return x
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    x = np.asarray(x)
    if x.dtype.names:
        return {n: np.array(x[n]) for n in x.dtype.names}
    return np.array(x)


def ops(o, c):
    sel, cfg, R = c["sel"], c["cfg"], c["R"]
    snap = c["kind"] == "snapshot"

    def profiles():
        # every process gets the profiles, as in example_scripts
        return comm.bcast(o.estDensProfs(R, sel, True, True), root=0)

    def fit(f):
        return f(profiles(), R, {"profile": "nfw", "min_method": "Nelder-Mead"}, sel)

    bad = list(sel) + [sel[0]]
    table = {
        "refused local": lambda: o.getShapeCatLocal(bad, cfg), "refused dump": lambda: o.dumpShapeCatGlobal(bad, cfg),
        "refused fit": lambda: o.fitDensProfs(np.ones((len(sel), len(R))), R, {"profile": "none", "min_method": "Nelder-Mead"}, sel),
        "refused plot": lambda: o.plotShapeProfs(1, sel, {k: v for k, v in cfg.items() if k != "IT_TOL"}),
        "members": lambda: o.getIdxCat(), "radii": lambda: o.getR200(), "centres": lambda: o.getMassesCenters(sel),
        "particles": lambda: o.getXYZMasses(), "local": lambda: o.getShapeCatLocal(sel, cfg), "global": lambda: o.getShapeCatGlobal(sel, cfg),
        "sph": lambda: o.estDensProfs(R, sel, True, True), "kernel": lambda: o.estDensProfs(R, sel, False, True),
        "ell": lambda: o.estDensProfs(R, sel, True, False, cfg), "dump local": lambda: o.dumpShapeCatLocal(sel, cfg),
        "dump global": lambda: o.dumpShapeCatGlobal(sel, cfg), "plot shapes": lambda: o.plotShapeProfs(1, sel, cfg),
        "plot T": lambda: o.plotGlobalTHist(5, sel, cfg), "plot eps": lambda: o.plotGlobalEpsHist(5, sel),
        "viz": lambda: o.vizLocalShapes(sel[:1], cfg), "concentrations": lambda: fit(o.estConcentrations), "fit": lambda: fit(o.fitDensProfs),
        "plot densities": lambda: o.plotDensProfs(*[profiles(), R] * 2, {"profile": "nfw", "min_method": "Nelder-Mead"}, 1, sel),
        "info": lambda: o.getObjInfoGadget() if snap else o.getObjInfo(),
        "velocities": lambda: o.getVelXYZ(), "header": lambda: [float(o.getHeader().boxsize), float(o.getHeader().redshift)],
        "velocity local": lambda: o.getShapeCatVelLocal(sel, cfg), "velocity global": lambda: o.getShapeCatVelGlobal(sel, cfg),
        "dump velocity local": lambda: o.dumpShapeVelCatLocal(sel, cfg), "dump velocity global": lambda: o.dumpShapeVelCatGlobal(sel, cfg),
    }
    for k in c["ops"]:
        yield k, table[k]


def files(d):
    got = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            k = os.path.relpath(p, d)
            got[k] = open(p, "rb").read() if f.endswith(".txt") else os.path.getsize(p) > 0
    return got


def main():
    res = {}
    for name in sorted(os.listdir(src)):
        if not name.endswith(".case"):
            continue
        c = pickle.load(open(os.path.join(src, name), "rb"))
        dest = os.path.join(out, name)
        if rank == 0:
            os.makedirs(dest)
        comm.Barrier()
        gen.internal_units()
        r = {}
        try:
            if c["kind"] == "snapshot":
                cp.updateInUnitSystem("kpc/h", "E+10Msun/h", "km/s", gen.H)
                o = cp.DensShapeProfsGadget(c["snap"], c["groups"], c["type"], "024", dest + "/viz", dest + "/cat", MIN_NUMBER_PTCS=c["minpt"], CENTER=c["center"])
            else:
                o = cp.DensShapeProfs(c["xyz"], c["m"], c["idx"], c["r200"], c["L"], "024", dest + "/viz", dest + "/cat", MIN_NUMBER_PTCS=1, CENTER=c["center"])
            for k, f in ops(o, c):
                try:
                    r[k] = plain(f())
                except Exception as e:
                    r[k] = "raised " + repr(e)[:300]
                    r.setdefault("traceback", traceback.format_exc()[-1500:])
        except Exception as e:
            r["constructor"] = "raised " + repr(e)[:300]
            r["traceback"] = traceback.format_exc()[-1500:]
        comm.Barrier()
        if rank == 0:
            r["files"] = files(dest)
        res[name] = r
    with open(os.path.join(out, "rank%d.pkl" % rank), "wb") as f:
        pickle.dump(res, f)
    comm.Barrier()


main()
