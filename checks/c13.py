"""C13: the object catalogue of FoF/SUBFIND group files is the one they describe."""
import contextlib, io, os, re, shutil
import numpy as np
import gen, snap
from harness import Skip, set_threads


def groups(rng, ptype, minpt):
    """Random group tables, rich in the cases at the limits of the selection."""
    n = int(rng.choice([1, 2, 3, 6, 15, 60, 300, 2500], p=[.1, .1, .2, .2, .2, .14, .05, .01]))
    glen, nsubs, slen = [], [], []
    for _ in range(n):
        ns = int(rng.choice([0, 1, 1, 2, 4]))
        first = int(rng.choice([0, 1, minpt - 1, minpt, minpt + 1, minpt * 3, max(0, minpt // 2)]))
        first = max(first, 0) if ns else 0
        rest = [int(x) for x in rng.integers(0, minpt + 3, max(0, ns - 1))]      # a satellite may exceed the limit, too
        fuzz = int(rng.integers(0, 7)) if rng.random() < .7 else 0
        if ns == 0:
            fuzz = int(rng.integers(0, minpt + 5))
        glen.append(first + sum(rest) + fuzz)
        nsubs.append(ns)
        slen += [first] * (ns > 0) + rest
    if not slen and rng.random() < .5:      # else: no subhalo at all
        nsubs[0], slen = 1, [minpt]
        glen[0] = max(glen[0], minpt)
    if n < 60 and rng.random() < .04:       # a group larger than 16 bits can count; its particles are not, or are, of an object
        k, big = int(rng.integers(n)), int(rng.integers(65000, 70000))
        glen[k] += big
        if nsubs[k] and rng.random() < .5:
            slen[int(sum(nsubs[:k]))] += big
    g6, s6 = rng.integers(0, 1000, (n, 6)), rng.integers(0, 1000, (len(slen), 6))
    g6[:, ptype], s6[:, ptype] = glen, slen
    return dict(len=g6, nsubs=np.array(nsubs), rvir=10 ** rng.uniform(0, 3, n), r200=10 ** rng.uniform(0, 3, n)), s6


def reference(fof, subs, ptype, minpt):
    """(first particle, number of particles, group) of every object that qualifies."""
    out, start, sh = [], 0, 0
    for g in range(len(fof["nsubs"])):
        if fof["nsubs"][g] > 0 and subs[sh, ptype] >= minpt:
            out.append((start, int(subs[sh, ptype]), g))
        start += int(fof["len"][g, ptype])
        sh += int(fof["nsubs"][g])
    return out, start


def run(ctx):
    tmp = os.getcwd()
    for i, rng in ctx.cases(900, 20000):
        d = os.path.join(tmp, "sim%s_%d" % (ctx.case, ctx.seed))     # group tables are memoised by their path
        try:
            one(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(ctx, rng, d):
    import cosmic_profiles as cp
    from cosmic_profiles.gadget import read_fof
    from cosmic_profiles.gadget.gen_catalogues import calcObjCat
    typ = str(rng.choice(["dm", "stars", "gas"]))
    ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
    ctx.check(read_fof.getPartType(typ) == ptype, "particle type")
    minpt = int(rng.choice([1, 2, 5, 10, 30]))
    fof, subs = groups(rng, ptype, minpt)
    nf = int(rng.choice([1, 1, 2, 3, 11, 13]))
    snap.write_fof(os.path.join(d, "groups"), fof, subs, nf, rng, int(rng.integers(0, 200)))
    exp, ntot = reference(fof, subs, ptype, minpt)
    ntot = max(ntot, 1)
    which = str(rng.choice(["Rvir", "R200"]))
    h = float(rng.uniform(.5, .9))
    lu = str(rng.choice(["kpc/h", "Mpc/h", "kpc", "Mpc"]))
    fac = {"k": 1e-3, "M": 1}[lu[0]] * (1 if lu.endswith("h") else h)
    ou = str(rng.choice(["kpc/h", "Mpc/h", "Mpc"]))
    ofac = {"k": 1e3, "M": 1}[ou[0]] / (1 if ou.endswith("h") else h)
    cp.updateInUnitSystem(lu, "E+10Msun/h", "km/s", h)
    cp.updateOutUnitSystem(ou, "E+10Msun/h", "km/s", h)
    set_threads(int(rng.integers(1, 9)))
    rr = np.float64(np.float32(fof["rvir" if which == "Rvir" else "r200"]))
    er = np.array([rr[g] for _, _, g in exp]) * fac
    box = float(rng.uniform(10, 1000)) / fac
    head = snap.header(rng, BoxSize=box)
    pos = rng.uniform(0, box, (ntot, 3))
    parts = {ptype: dict(pos=pos, vel=rng.normal(size=(ntot, 3)), mass=rng.uniform(1, 2, ntot), id=np.arange(ntot, dtype=np.uint64))}
    other = int(rng.choice([t for t in range(6) if t != ptype]))
    parts[other] = dict(pos=rng.uniform(0, box, (7, 3)), vel=np.zeros((7, 3)), mass=np.ones(7), id=np.arange(7, dtype=np.uint64))
    sp = snap.write_hdf5(os.path.join(d, "snap_024"), parts, head, int(rng.choice([1, 1, 3])), rng)
    ctx.describe(type=typ, minpt=minpt, groups=len(fof["nsubs"]), subs=len(subs), files=nf, objects=len(exp), radius=which, units=lu, out=ou)
    gdir = os.path.join(d, "groups")
    with ctx.target("getFoFSHData"):
        nb_shs, sh_len, fof_sizes, gr = read_fof.getFoFSHData(gdir, which, ptype)
    ctx.check(np.array_equal(nb_shs, fof["nsubs"]) and np.array_equal(sh_len, subs[:, ptype]) and np.array_equal(fof_sizes, fof["len"][:, ptype]),
              "group tables are read in order", files=nf)
    ctx.close(gr, rr * fac, "group radii", rtol=1e-6)
    with ctx.target("calcObjCat"):
        ci, cr, cs = calcObjCat(nb_shs, sh_len, fof_sizes, gr, minpt)
    ei = np.concatenate([np.arange(s, s + n) for s, n, _ in exp]) if exp else np.zeros(0, int)
    es = np.array([n for _, n, _ in exp], int)

    def verdict(ci, cs, what):
        ctx.check(np.array_equal(cs, es), what + ": objects that qualify, in order", got=cs, expected=es)
        ctx.check(np.array_equal(ci, ei), what + ": the particles of the central subhalos", got=ci, expected=ei)
    verdict(np.asarray(ci), np.asarray(cs), "catalogue")
    ctx.close(cr, er, "catalogue: radii of the groups", rtol=1e-6)
    if not exp:
        ctx.ev("no object qualifies")
    ctx.ev("objects exactly at the limit", int((es == minpt).sum()))
    ctx.ev("groups without subhalos", int((fof["nsubs"] == 0).sum()))
    ctx.ev("central subhalo just too small", int(sum(subs[int(fof["nsubs"][:g].sum()), ptype] == minpt - 1 for g in range(len(fof["nsubs"])) if fof["nsubs"][g])))
    ctx.sig(typ, minpt, len(fof["nsubs"]), len(exp), nf > 1, which)
    with ctx.target("DensShapeProfsGadget"):
        o = cp.DensShapeProfsGadget(sp, gdir, typ, "024", d + "/viz", d + "/cat", RVIR_OR_R200=which, MIN_NUMBER_PTCS=minpt, CENTER="com")
        gi, gs = o.getIdxCat()
        g2 = o.getR200()
        xyz, m = o.getXYZMasses()
        vel = o.getVelXYZ()
    verdict(np.asarray(gi), np.asarray(gs), "objects of a snapshot")
    ctx.close(g2, er * ofac, "objects of a snapshot: radii", rtol=1e-6)
    p = parts[ptype]
    ctx.close(xyz, p["pos"] * fac * ofac, "particles of the requested type: positions", rtol=1e-12)
    ctx.close(m, p["mass"], "particles of the requested type: masses", rtol=1e-12)
    ctx.close(vel, p["vel"] * np.sqrt(head["Time"]), "particles of the requested type: velocities", rtol=1e-12)
    ctx.close(float(o.getHeader().boxsize), box, "header: box size", rtol=1e-14)
    if exp:
        sel = rng.permutation(len(exp))[:int(rng.integers(1, len(exp) + 1))]
        with ctx.target("getMassesCenters"):
            mc = o.getMassesCenters(sel)
        ctx.close(mc["mass"], [p["mass"][exp[k][0]:exp[k][0] + exp[k][1]].sum() for k in sel], "objects of a snapshot: masses", rtol=1e-9)
    buf = io.StringIO()
    with ctx.target("getObjInfoGadget"), contextlib.redirect_stdout(buf):
        o.getObjInfoGadget()
    txt = buf.getvalue()

    def num(pat):
        f = re.findall(pat + r"\D*(\d+)", txt)
        return int(f[0]) if f else None
    n = len(fof["nsubs"])
    want = {"Number of objects with sufficient resolution:": len(exp), "number of objects with > 0 SHs is": int((fof["nsubs"] > 0).sum()),
            "total number of objects is": n, r"number of SHs \(subhalos\) is": len(subs), "number of objects that have no SH is": int((fof["nsubs"] == 0).sum()),
            r"\(central subhalos\) that have sufficient resolution is": len(exp)}
    got = {k: num(k) for k in want}
    if all(v is not None for v in got.values()):
        ctx.check(got == want, "numbers reported about the catalogue", got=got, expected=want)
    else:
        ctx.undec("report worded differently")
    if rng.random() < .2:
        ctx.expect_raises(ValueError, lambda: read_fof.getFoFSHData(gdir, "R500", ptype), "unknown radius definition is rejected")
        ctx.expect_raises(ValueError, lambda: read_fof.getFoFSHData(d + "/none", which, ptype), "missing group files are rejected")
        ctx.expect_raises(AssertionError, lambda: read_fof.getPartType("bh"), "unknown particle type is rejected")
    # the same tables with rows missing, at a path that has not been read so far
    cut = os.path.join(d, "cut")
    shutil.copytree(gdir, cut)
    victim = os.path.join(cut, str(rng.choice(sorted(os.listdir(cut)))))
    what = snap.shorten(rng, victim)
    if what is None:
        return
    try:
        got = read_fof.getFoFSHData(cut, which, ptype)
    except (Exception, SystemExit):
        return ctx.ev("group tables with rows missing: refused")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(got, (nb_shs, sh_len, fof_sizes, gr))), "rows are missing in a group table: refused, or of no consequence",
              cut=what, files=nf, got=got)
    ctx.ev("group tables with rows missing: of no consequence")
