"""C26: every block of a binary snapshot is read by name for any particle type, and single subfiles are read on their own."""
import os, shutil
import numpy as np
import snap
from harness import Skip, load

_c12 = load("c12")
particles, expected, same, units, BLOCKS = _c12.particles, _c12.expected, _c12.same, _c12.units, _c12.BLOCKS
GAS, STARS, HOLES, ALL = (0,), (4,), (5,), (0, 1, 2, 3, 4, 5)
F3 = np.dtype((np.float64, 3))
#      label   types     dtype
POST = {0: ["U   ", "RHO ", "NE  ", "NH  ", "HSML", "SFR "],
        1: ["U   ", "RHO ", "VOL ", "NE  ", "NH  ", "HSML", "SFR "],
        2: ["U   ", "RHO ", "VOL ", "CMCE", "AREA", "NFAC", "NE  ", "NH  ", "HSML", "SFR "]}
TAIL = {"galaxies": [("AGE ", STARS), ("Z   ", (0, 4)), ("BHMA", HOLES), ("BHMD", HOLES)], "HI": [("MHI ", GAS), ("TEMP", GAS)]}


def layout(rng):
    """Order of the blocks that the reader documents for format 1: a flavour, with or without masses, or positions to accelerations only."""
    if rng.random() < .1:
        return dict(arepo=0, no_masses=False), [("POS ", ALL), ("VEL ", ALL), ("ID  ", ALL), ("ACCE", ALL)]
    arepo, no_masses = int(rng.integers(0, 3)), bool(rng.random() < .3)
    tail = TAIL["galaxies" if rng.random() < .7 else "HI"]
    out = [("POS ", ALL), ("VEL ", ALL), ("ID  ", ALL)] + ([] if no_masses else [("MASS", None)])
    return dict(arepo=arepo, no_masses=no_masses), out + [(b, GAS) for b in POST[arepo]] + tail


def dtype(label, long_ids):
    if label in ("POS ", "VEL ", "ACCE", "CMCE"):
        return F3
    return np.dtype({"ID  ": np.uint64 if long_ids else np.uint32, "NFAC": np.int64}.get(label, np.float64))


def content(rng, label, n, dt):
    shape = (n, 3) if dt == F3 else (n,)
    if dt.kind in "ui" and dt != F3:
        big = rng.integers(1, 2 ** 31, n).astype(np.uint64)
        return (big + (np.uint64(2 ** 54 + 1) if dt.itemsize == 8 and label == "ID  " else np.uint64(0))).astype(dt)
    return rng.normal(size=shape) * 10 ** rng.uniform(-3, 3)


def run(ctx):
    tmp = os.getcwd()
    for i, rng in ctx.cases(1200, 40000):
        d = os.path.join(tmp, "blocks")
        os.makedirs(d, exist_ok=True)
        try:
            blocks(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for i, rng in ctx.cases(300, 9000, stream="subfiles"):
        d = os.path.join(tmp, "subfiles")
        try:
            subfiles(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


def blocks(ctx, rng, d):
    from cosmic_profiles.gadget import readsnap
    fmt, swap = int(rng.integers(1, 3)), bool(rng.random() < .5)
    nfiles = int(rng.choice([1, 1, 2, 3, 4, 11]))
    long_ids = bool(rng.random() < .5)
    opt, order = layout(rng)
    E = ">" if swap else "<"
    npart = np.where(rng.random(6) < .6, rng.integers(1, 40, 6), 0)
    if not npart.any():
        npart[1] = 3
    massarr = np.where(rng.random(6) < .4, 10 ** rng.uniform(-2, 2, 6), 0.0)
    if opt["no_masses"] or not any(b == "MASS" for b, _ in order):
        massarr = np.where(massarr == 0, 1.5, massarr)
    cuts = np.array([snap.split(rng, n, nfiles) for n in npart])            # per type: bounds of the subfiles
    if nfiles > 1 and rng.random() < .3:                                       # a type that is missing from the first or last subfile
        t = int(rng.choice(np.nonzero(npart)[0]))
        cuts[t, 1 if rng.random() < .5 else -2] = 0 if rng.random() < .5 else npart[t]
        cuts[t] = np.sort(cuts[t])
    time = float(rng.choice([1.0, .5, .2, .83])); redshift = 1 / time - 1
    # some files written by simulation codes leave blocks without particles out (format 2, where blocks carry names)
    omit = bool(fmt == 2 and rng.random() < .5)
    if fmt == 2 and rng.random() < .3:
        order = [order[k] for k in rng.permutation(len(order))]
    order = [(b, tuple(np.nonzero(massarr == 0)[0]) if ts is None else ts) for b, ts in order]
    data = {b: {t: content(rng, b, int(npart[t]), dtype(b, long_ids)) for t in ts} for b, ts in order}
    base = os.path.join(d, "snapdir_%03d" % rng.integers(0, 999))
    dot0 = bool(rng.random() < .4)

    def put(f, label, raw):
        if fmt == 2:
            f.write(np.array([8], E + "i4").tobytes() + label.encode() + np.array([len(raw) + 8, 8], E + "i4").tobytes())
        f.write(np.array([len(raw)], E + "u4").tobytes() + raw + np.array([len(raw)], E + "u4").tobytes())
    for i in range(nfiles):
        here = cuts[:, i + 1] - cuts[:, i]
        h = here.astype(E + "i4").tobytes() + massarr.astype(E + "f8").tobytes() + np.array([time, redshift], E + "f8").tobytes()
        h += np.array([0, 0], E + "i4").tobytes() + npart.astype(E + "u4").tobytes() + np.array([0, nfiles], E + "i4").tobytes()
        h += np.array([50., .3, .7, .7], E + "f8").tobytes()
        with open(base + (".%d" % i if nfiles > 1 or dot0 else ""), "wb") as f:
            put(f, "HEAD", h + b"\0" * (256 - len(h)))
            for b, ts in order:
                if omit and not sum(here[list(ts)]):
                    ctx.ev("block without particles left out of a subfile")
                    continue
                raw = b"".join(data[b][t][cuts[t, i]:cuts[t, i + 1]].astype(dtype(b, long_ids).base.newbyteorder(E)).tobytes() for t in ts)
                put(f, b, raw)
    ctx.describe(format=fmt, swap=swap, files=nfiles, npart=npart, massarr=massarr, long_ids=long_ids, order=[b for b, _ in order], omit=omit, **opt)
    ctx.sig(fmt, swap, nfiles, opt["arepo"], opt["no_masses"], tuple(npart > 0), omit)
    kw = dict(opt)
    if rng.random() < .2:
        kw["nall"] = np.array(npart)
    vel = np.sqrt(time)
    for b, ts in order:
        want = [t for t in ts if npart[t]]
        asked = ([int(rng.choice(want))] if want else []) + [-1]
        for t in asked:
            if t == -1 and not want:
                continue
            with ctx.target("read " + b):
                got = readsnap.read_block(base, b, parttype=t, **kw)
            if t == -1:
                sel = list(range(6)) if b == "MASS" else want
                parts = [np.full(npart[k], massarr[k]) if b == "MASS" and massarr[k] > 0 else data[b][k] for k in sel]
                ctx.ev("all types at once")
            else:
                parts = [data[b][t]]
            exp = np.concatenate(parts) * (vel if b == "VEL " else 1)
            if b in ("ID  ", "NFAC"):
                ctx.check(got.shape == exp.shape and got.dtype.kind in "ui" and (got == exp).all(), "integer blocks are read as written", block=b, type=t, got=got, expected=exp)
            else:
                ctx.check(same(got, exp, 1e-14), "blocks are read as written", block=b, type=t, got=got, expected=exp)
            if b == "VEL ":
                with ctx.target("read " + b):
                    raw = readsnap.read_block(base, b, parttype=t, physical_velocities=False, **kw)
                ctx.check(same(raw, np.concatenate(parts), 1e-14), "velocities without factor on request", got=raw, expected=parts)
        none = [t for t in range(6) if t not in ts and npart[t]]
        if none and b not in ("MASS",):
            t = int(rng.choice(none))
            ctx.expect_raises((Exception, SystemExit), lambda: readsnap.read_block(base, b, parttype=t, **kw), "a type without data in the block is refused", block=b, type=t)
    for t in np.nonzero((massarr > 0) & (npart > 0))[0]:
        with ctx.target("masses from the header"):
            got = readsnap.read_block(base, "MASS", parttype=int(t), **kw)
        ctx.check(same(got, np.full(npart[t], massarr[t]), 1e-14), "masses from the header", got=got, type=int(t), expected=massarr[t])
    if not any(massarr == 0):
        with ctx.target("all masses from the header"):
            got = readsnap.read_block(base, "MASS", **kw)
        ctx.check(same(got, np.repeat(massarr, npart), 1e-14), "all masses from the header", got=got, npart=npart, massarr=massarr)
    damaged(ctx, rng, base, order, npart, cuts, kw, fmt, E, nfiles, dot0)
    if fmt == 2:
        have = {b for b, _ in order}
        missing = [b for b in ("U   ", "VOL ", "ACCE", "MHI ", "AGE ", "BHMA") if b not in have]
        if missing:
            b = str(rng.choice(missing)); t = {"AGE ": 4, "BHMA": 5, "ACCE": -1}.get(b, 0)
            if t < 0 or npart[t]:
                ctx.expect_raises((Exception, SystemExit), lambda: readsnap.read_block(base, b, parttype=t, **kw), "a block that the file does not hold is refused", block=b)
    ctx.expect_raises((Exception, SystemExit), lambda: readsnap.read_block(base, "POS ", parttype=6), "a type that does not exist is refused")


def damaged(ctx, rng, base, order, npart, cuts, kw, fmt, E, nfiles, dot0):
    """A subfile cut within a block, or a block whose size contradicts the header, is refused when that block is read."""
    from cosmic_profiles.gadget import readsnap
    i = int(rng.integers(0, nfiles))
    here = cuts[:, i + 1] - cuts[:, i]
    name = base + (".%d" % i if nfiles > 1 or dot0 else "")
    # positions of the blocks in this subfile
    raw = open(name, "rb").read()
    pos, where = 0, []
    while pos < len(raw):
        label = None
        if fmt == 2:
            label = raw[pos + 4:pos + 8].decode(); pos += 16
        size = int(np.frombuffer(raw, E + "u4", 1, pos)[0])
        where.append((label, pos, size)); pos += size + 8
    if fmt == 1:
        where = [(b, p, s) for (_, p, s), b in zip(where, ["HEAD"] + [b for b, _ in order])]
    types = dict(order)
    cand = [(b, p, s) for b, p, s in where if b != "HEAD" and s > 0]
    if not cand:
        return
    b, p, s = cand[rng.integers(0, len(cand))]
    t = int(rng.choice([k for k in types[b] if here[k]]))
    kind = str(rng.choice(["cut", "size", "earlier"]))
    if kind == "cut":                       # the last particle of the type is no longer whole
        before = sum(int(here[k]) for k in types[b] if k <= t) * (s // int(sum(here[list(types[b])])))
        bad = raw[:p + 4 + before - int(rng.integers(1, 5))]
    elif kind == "size":
        off = int(rng.choice([k for k in (-8, 8, -4, 4, 24, 1) if s + k > 0 and not (b == "ID  " and s + k in (2 * s, s // 2))]))
        bad = raw[:p] + np.array([s + off], E + "u4").tobytes() + raw[p + 4:]
    else:                                   # an earlier block whose two sizes differ
        k = [q for q in where if q[1] < p][-1]
        end = k[1] + 4 + k[2]
        bad = raw[:end] + np.array([k[2] + int(rng.choice([1, 4, 8]))], E + "u4").tobytes() + raw[end + 4:]
    with open(name, "wb") as f:
        f.write(bad)
    ctx.expect_raises((Exception, SystemExit), lambda: readsnap.read_block(base, b, parttype=t, **kw), "damaged: %s" % kind, block=b, type=t, subfile=i)
    with open(name, "wb") as f:
        f.write(raw)


def subfiles(ctx, rng, d):
    """read_field reads one subfile: together the subfiles are the snapshot, in order."""
    from cosmic_profiles.gadget import readgadget
    fmt = str(rng.choice(["hdf5", "binary1", "binary2"]))
    types = sorted(rng.choice(6, int(rng.integers(1, 4)), replace=False))
    parts, mt = particles(rng, fmt, types)
    if not any(len(p["id"]) for p in parts.values()):
        raise Skip
    nfiles = int(rng.choice([1, 2, 3, 5]))
    head = snap.header(rng, MassTable=mt)
    fac, names = units(rng)
    base = os.path.join(d, "snap_%03d" % rng.integers(0, 200))
    if fmt == "hdf5":
        snap.write_hdf5(base, parts, head, nfiles, rng, False, None)
        names_ = ["%s.%d.hdf5" % (base, k) for k in range(nfiles)] if nfiles > 1 else [base + ".hdf5"]
    else:
        snap.write_binary(base, parts, head, nfiles, rng, 1 if fmt == "binary1" else 2, bool(rng.random() < .4), True, False)
        names_ = ["%s.%d" % (base, k) for k in range(nfiles)]
    ctx.describe(fmt=fmt, types=types, sizes=[len(parts[t]["id"]) for t in types], files=nfiles, z=head["Redshift"], massarr=mt)
    ctx.sig("subfiles", fmt, nfiles, tuple(types))
    for t in [t for t in types if len(parts[t]["id"])]:
        for block, key, ku in BLOCKS:
            with ctx.target("read one subfile"):
                pieces = [readgadget.read_field(n, block, t) for n in names_]
                heads = [readgadget.header(n) for n in names_]
            ctx.check([len(p) for p in pieces] == [int(h.npart[t]) for h in heads], "a subfile gives the particles its header counts", block=block, got=[len(p) for p in pieces])
            got, exp = np.concatenate(pieces), expected(parts, head, key, t, ku, fac)
            if key == "id":
                ctx.check(got.shape == exp.shape and (got.astype(np.uint64) == exp).all(), "subfiles together hold the IDs", got=got, expected=exp)
            else:
                ctx.check(same(got, exp, 1e-13), "subfiles together hold the data", block=block, got=got, expected=exp)
            ctx.ev("subfile read on its own")
