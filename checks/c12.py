"""C12: Gadget snapshots of every supported format are read as they were written, or refused."""
import os, shutil
import numpy as np
import gen, snap
from harness import Skip

BLOCKS = [("POS ", "pos", 0), ("VEL ", "vel", 2), ("MASS", "mass", 1), ("ID  ", "id", None)]


def units(rng):
    """Input units and the factors from what is in the file to internal units."""
    import cosmic_profiles as cp
    h = float(rng.uniform(.5, .9))
    L = {"pc": 1e-6, "kpc": 1e-3, "Mpc": 1.0, "Gpc": 1e3}
    l, m = rng.choice(list(L)), rng.choice(["Msun", "E+10Msun"])
    lh, mh = rng.random() < .5, rng.random() < .5
    v = ["km/s", 1e5, 1.0, 3e6][int(rng.integers(0, 4))]
    lu, mu = l + ("/h" if lh else ""), m + ("/h" if mh else "")
    cp.updateInUnitSystem(lu, mu, v, h)
    cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", h)
    fac = [L[l] * (1 if lh else h), (1 if m == "E+10Msun" else 1e-10) * (1 if mh else h), 1.0 if v == "km/s" else v / 1e5]
    return fac, (lu, mu, v)


def particles(rng, fmt, types):
    parts, mt = {}, np.zeros(6)
    i8 = rng.random() < .5
    for t in types:
        n = int(rng.integers(1, 60)) if rng.random() < .85 else 0
        mass = 10 ** rng.uniform(-3, 3, n)
        if rng.random() < .4:
            mt[t] = 10 ** rng.uniform(-3, 3)
            mass = None
        ids = rng.permutation(np.arange(n, dtype=np.uint64) + np.uint64(2 ** 53 + 1 if i8 else 1))
        parts[t] = dict(pos=rng.uniform(0, 100, (n, 3)), vel=rng.normal(size=(n, 3)) * 300, mass=mass, id=ids if i8 else ids.astype(np.uint32))
    return parts, mt


def write(rng, d, fmt, parts, head, nfiles):
    base = os.path.join(d, "snap_%03d" % rng.integers(0, 200))
    if fmt == "hdf5":
        f32 = bool(rng.random() < .3)
        dot0 = nfiles == 1 and rng.random() < .3
        snap.write_hdf5(base, parts, head, nfiles, rng, f32, "dot0" if dot0 else None)
        if dot0:
            path = base + ".0.hdf5"
        elif nfiles == 1:
            path = base + (".hdf5" if rng.random() < .5 else "")
        else:
            path = base
        return path, base, 2e-7 if f32 else 1e-13
    swap, dot0 = bool(rng.random() < .4), bool(rng.random() < .4)
    snap.write_binary(base, parts, head, nfiles, rng, 1 if fmt == "binary1" else 2, swap, dot0, rng.random() < .4)
    return base, base, 1e-13


def expected(parts, head, key, t, ku, fac):
    p = parts[t]
    if key == "mass":
        v = p["mass"] if p["mass"] is not None else np.full(len(p["id"]), head["MassTable"][t])
    else:
        v = p[key]
    if ku is None:
        return v
    return v * fac[ku] * (np.sqrt(head["Time"]) if key == "vel" else 1.0)


def same(got, exp, rtol):
    return got.shape == exp.shape and (np.abs(np.asarray(got, float) - exp) <= rtol * np.abs(exp)).all()


def run(ctx):
    tmp = os.getcwd()
    for i, rng in ctx.cases(1000, 30000):
        d = os.path.join(tmp, "snaps")
        try:
            one(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ctx, rng, d):
    from cosmic_profiles.gadget import readgadget
    fmt = str(rng.choice(["hdf5", "hdf5", "binary1", "binary2"]))
    types = sorted(rng.choice(6, int(rng.integers(1, 5)), replace=False))
    parts, mt = particles(rng, fmt, types)
    if not any(len(p["id"]) for p in parts.values()):
        parts[types[0]]["id"] = np.array([5], parts[types[0]]["id"].dtype)
        parts[types[0]].update(pos=np.ones((1, 3)), vel=np.ones((1, 3)), mass=None if mt[types[0]] else np.ones(1))
    nfiles = int(rng.choice([1, 1, 2, 3, 5, 12]))
    head = snap.header(rng, MassTable=mt)
    fac, names = units(rng)
    path, base, rtol = write(rng, d, fmt, parts, head, nfiles)
    ctx.describe(fmt=fmt, types=types, sizes=[len(parts[t]["id"]) for t in types], files=nfiles, units=names, z=head["Redshift"],
                 massarr=mt, name=os.path.relpath(path, d))
    ctx.sig(fmt, nfiles, tuple(types), tuple(mt > 0), head["Redshift"] > 0, names[:2])
    with ctx.target("header"):
        h = readgadget.header(path)
    tot = np.zeros(6, int)
    for t in types:
        tot[t] = len(parts[t]["id"])
    ctx.close([h.time, h.redshift, h.boxsize, h.omega_m, h.omega_l, h.hubble], [head[k] for k in ("Time", "Redshift", "BoxSize", "Omega0", "OmegaLambda", "HubbleParam")],
              "header values", rtol=1e-14)
    ctx.check((np.asarray(h.nall, int) == tot).all() and int(h.filenum) == nfiles and int(h.cooling) == head["Flag_Cooling"], "header counts",
              got=np.asarray(h.nall, int), expected=tot, filenum=int(h.filenum))
    mexp = np.array([head["MassTable"][t] for t in range(6)])
    ctx.close(np.asarray(h.massarr, float), mexp, "header masses", rtol=1e-14)
    ctx.close(h.Hubble, 100 * np.sqrt(head["Omega0"] * (1 + head["Redshift"]) ** 3 + head["OmegaLambda"]), "Hubble rate", rtol=1e-12)
    full = [t for t in types if tot[t]]
    for block, key, ku in BLOCKS:
        for req in ([t] for t in full):
            with ctx.target("read " + block):
                got = readgadget.read_block(path, block, req)
            verdict(ctx, got, [expected(parts, head, key, t, ku, fac) for t in req], block, key, rtol, fmt, req)
        if len(full) > 1:
            req = list(rng.permutation(full)[:int(rng.integers(2, len(full) + 1))])
            with ctx.target("read " + block):
                got = readgadget.read_block(path, block, req)
            verdict(ctx, got, [expected(parts, head, key, t, ku, fac) for t in req], block, key, rtol, fmt, req)
            ctx.ev("several types in one read")
    faults(ctx, rng, readgadget, path, base, fmt, nfiles, parts, head, fac, full, rtol, d)


def verdict(ctx, got, exp, block, key, rtol, fmt, req):
    exp = np.concatenate(exp)
    if key == "id":
        ctx.check(got.shape == exp.shape and got.dtype.kind in "ui" and (got == exp).all(), fmt + ": IDs are read as written", req=req, got=got, expected=exp)
    else:
        ctx.check(got.dtype == np.float64 and same(got, exp, rtol), fmt + ": %s are read as written" % {"pos": "positions", "vel": "velocities", "mass": "masses"}[key],
                  req=req, got=got, expected=exp, dtype=str(got.dtype))


def faults(ctx, rng, readgadget, path, base, fmt, nfiles, parts, head, fac, full, rtol, d):
    """Damaged or missing files: an error, or the right data; never wrong data."""
    def attempt(what):
        block, key, ku = BLOCKS[int(rng.integers(0, 4))]
        t = int(rng.choice(full))
        try:
            got = readgadget.read_block(path, block, [t])
        except (Exception, SystemExit):
            return ctx.check(True, what + ": refused")
        exp = expected(parts, head, key, t, ku, fac)
        ok = (got == exp).all() if key == "id" and got.shape == exp.shape else same(got, exp, rtol)
        ctx.check(ok, what + ": no wrong data", block=block, type=t, got=got, expected=exp)
        ctx.ev(what + ": data intact")
    ctx.expect_raises((Exception, SystemExit), lambda: readgadget.read_block(os.path.join(d, "nothing"), "POS ", [1]), "missing snapshot is refused")
    ctx.expect_raises((Exception, SystemExit), lambda: readgadget.read_block(path, "WHAT", [int(full[0])]), "unknown block is refused")
    kind = rng.integers(0, 4)
    files = sorted(os.listdir(d))
    victim = os.path.join(d, files[int(rng.integers(0, len(files)))])
    if kind == 0 and nfiles > 1:
        os.unlink(victim)
        attempt("missing file")
    elif kind == 1:
        n = os.path.getsize(victim)
        with open(victim, "r+b") as f:
            f.truncate(int(rng.integers(1, n)))
        attempt("truncated file")
    elif kind == 2 and fmt == "hdf5":
        cut = snap.shorten(rng, victim)
        if cut is None:
            return
        t, name = cut[0][8:].split("/")
        key = {"Coordinates": "POS ", "Velocities": "VEL ", "Masses": "MASS", "ParticleIDs": "ID  "}[name]
        ctx.expect_raises((Exception, SystemExit), lambda: readgadget.read_block(path, key, [int(t)]), "a block of too few rows is refused", cut=cut, files=nfiles)
        ctx.ev("blocks with rows cut off")
    elif fmt == "hdf5":
        import h5py
        with h5py.File(victim, "r+") as f:
            ts = [g for g in f if g.startswith("PartType")]
            if not ts:
                return
            g = f[ts[int(rng.integers(0, len(ts)))]]
            name = list(g)[int(rng.integers(0, len(g)))]
            t = int(g.name[-1])
            if name == "Masses" and head["MassTable"][t] != 0:
                return
            del g[name]
        key = {"Coordinates": "POS ", "Velocities": "VEL ", "Masses": "MASS", "ParticleIDs": "ID  "}[name]
        ctx.expect_raises((Exception, SystemExit), lambda: readgadget.read_block(path, key, [t]), "missing block is refused", block=key, type=t)
