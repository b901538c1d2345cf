"""Writers of Gadget snapshots (HDF5, binary I and II) and FoF/SUBFIND group files, from the format descriptions."""
import os
from types import SimpleNamespace
import numpy as np


def split(rng, n, k):
    """n particles over k files in order; some files may get none."""
    if k == 1:
        return np.array([0, n])
    c = np.sort(rng.integers(0, n + 1, k - 1))
    if rng.random() < .3:
        c[:] = c[0]
    return np.concatenate([[0], c, [n]])


def header(rng, **kw):
    z = float(rng.choice([0.0, rng.uniform(0.01, 8)]))
    h = dict(Time=1 / (1 + z), Redshift=z, BoxSize=float(10 ** rng.uniform(0, 5)), Omega0=float(rng.uniform(.1, .5)),
             OmegaLambda=float(rng.uniform(.5, .9)), HubbleParam=float(rng.uniform(.5, .8)), Flag_Cooling=int(rng.integers(0, 2)),
             MassTable=np.zeros(6))
    h.update(kw)
    return h


def write_hdf5(base, parts, head, nfiles, rng, f32=False, order=None):
    """parts: {type: dict(pos, vel, mass or None, id)}. Returns the path to hand over."""
    import h5py
    cuts = {t: split(rng, len(p["id"]), nfiles) for t, p in parts.items()}
    tot = np.zeros(6, np.uint32)
    for t, p in parts.items():
        tot[t] = len(p["id"])
    os.makedirs(os.path.dirname(base), exist_ok=True)
    for i in range(nfiles):
        fn = base + (".hdf5" if nfiles == 1 and order != "dot0" else ".%d.hdf5" % i)
        with h5py.File(fn, "w") as f:
            a = f.create_group("Header").attrs
            for k in ("Time", "Redshift", "BoxSize", "Omega0", "OmegaLambda", "HubbleParam", "Flag_Cooling"):
                a[k] = head[k]
            a["MassTable"] = np.float64(head["MassTable"])
            a["NumFilesPerSnapshot"] = np.int32(nfiles)
            a["NumPart_Total"] = tot
            here = np.zeros(6, np.int32)
            for t, p in parts.items():
                s = slice(cuts[t][i], cuts[t][i + 1])
                here[t] = s.stop - s.start
                if here[t] == 0:
                    continue
                g = f.create_group("PartType%d" % t)
                ft = np.float32 if f32 else np.float64
                g["Coordinates"], g["Velocities"], g["ParticleIDs"] = ft(p["pos"][s]), ft(p["vel"][s]), p["id"][s]
                if p["mass"] is not None:
                    g["Masses"] = ft(p["mass"][s])
            a["NumPart_ThisFile"] = here
    return base


def write_binary(base, parts, head, nfiles, rng, fmt=1, swap=False, dot0=False, extra=False):
    """Double-precision blocks HEAD POS VEL ID MASS; types whose header mass is set have no entry in MASS."""
    E = ">" if swap else "<"
    cuts = {t: split(rng, len(p["id"]), nfiles) for t, p in parts.items()}
    os.makedirs(os.path.dirname(base), exist_ok=True)
    mt = np.zeros(6)
    for t, p in parts.items():
        mt[t] = 0 if p["mass"] is not None else head["MassTable"][t]

    def block(f, label, raw):
        if fmt == 2:
            f.write(np.array([8], E + "i4").tobytes() + label.encode() + np.array([len(raw) + 8], E + "i4").tobytes() + np.array([8], E + "i4").tobytes())
        n = np.array([len(raw)], E + "i4").tobytes()
        f.write(n + raw + n)

    for i in range(nfiles):
        fn = base + (".%d" % i if nfiles > 1 or dot0 else "")
        here, tot = np.zeros(6, int), np.zeros(6, int)
        sl = {}
        for t, p in parts.items():
            sl[t] = slice(cuts[t][i], cuts[t][i + 1])
            here[t], tot[t] = sl[t].stop - sl[t].start, len(p["id"])
        h = here.astype(E + "i4").tobytes() + mt.astype(E + "f8").tobytes() + np.array([head["Time"], head["Redshift"]], E + "f8").tobytes()
        h += np.array([0, 0], E + "i4").tobytes() + tot.astype(E + "u4").tobytes() + np.array([head["Flag_Cooling"], nfiles], E + "i4").tobytes()
        h += np.array([head["BoxSize"], head["Omega0"], head["OmegaLambda"], head["HubbleParam"]], E + "f8").tobytes()
        h += b"\0" * (256 - len(h))
        with open(fn, "wb") as f:
            block(f, "HEAD", h)
            ts = sorted(parts)

            def cat(key, dt):
                return b"".join(np.ascontiguousarray(parts[t][key][sl[t]]).astype(E + dt).tobytes() for t in ts)
            if extra and fmt == 2:
                block(f, "XTRA", b"\7" * 40)
            block(f, "POS ", cat("pos", "f8"))
            block(f, "VEL ", cat("vel", "f8"))
            idt = parts[ts[0]]["id"].dtype
            block(f, "ID  ", cat("id", "u8" if idt.itemsize == 8 else "u4"))
            ms = [t for t in ts if mt[t] == 0]
            if any(len(parts[t]["id"]) for t in ms):
                block(f, "MASS", b"".join(parts[t]["mass"][sl[t]].astype(E + "f8").tobytes() for t in ms))
            if extra:
                block(f, "U   ", np.arange(here[0], dtype=E + "f8").tobytes())
    return base


def write_fof(d, groups, subs, nfiles, rng, snapno=24):
    """groups: dict(len[n,6], nsubs[n], rvir[n], r200[n]); subs: len[m,6]. Files numbered, in creation order at random."""
    import h5py
    os.makedirs(d, exist_ok=True)
    gc, sc = split(rng, len(groups["nsubs"]), nfiles), split(rng, len(subs), nfiles)
    for i in rng.permutation(nfiles):
        with h5py.File(os.path.join(d, "fof_subhalo_tab_%03d.%d.hdf5" % (snapno, i)), "w") as f:
            f.create_group("Header").attrs["NumFiles"] = nfiles
            a, b = gc[i], gc[i + 1]
            g = f.create_group("Group")
            if b > a:
                g["GroupLenType"] = np.int32(groups["len"][a:b])
                g["GroupNsubs"] = np.int32(groups["nsubs"][a:b])
                g["Group_R_TopHat200"] = np.float32(groups["rvir"][a:b])
                g["Group_R_Mean200"] = np.float32(groups["r200"][a:b])
            a, b = sc[i], sc[i + 1]
            g = f.create_group("Subhalo")
            if b > a:
                g["SubhaloLenType"] = np.int32(subs[a:b])
    return d


def shorten(rng, path):
    """Cuts rows off one dataset of an HDF5 file (down to a single one, often); its name, rows kept and rows there were."""
    import h5py
    with h5py.File(path, "r+") as f:
        names = []
        f.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) and len(o) else None)
        if not names:
            return None
        name = str(rng.choice(sorted(names)))
        data = f[name][:]
        n = len(data)
        k = min(int(rng.choice([1, 1, 0, n - 1, rng.integers(0, n)])), n - 1)
        del f[name]
        f[name] = data[:k]
    return name, k, n


def population(rng, cat, units, ptype=1, minpt=1, decoys=True):
    """Orders a catalogue's particles as a simulation would store them (group by group, central subhalo first).

    units: (length, mass, velocity) factors from internal to input units.
    Returns parts-to-write for that type plus the expected catalogue."""
    order, glen, nsubs, slen, rv, r2, objs = [], [], [], [], [], [], []
    used = np.zeros(len(cat.m), bool)
    for ii in cat.idx:
        used[ii] = True
    free = list(rng.permutation(np.flatnonzero(~used)))

    def take(k):
        out = free[:k]
        del free[:k]
        return out

    def decoy():
        kind = rng.integers(0, 3)
        k = take(int(rng.integers(0, 8)))
        order.extend(k)
        glen.append(len(k))
        if kind == 0 or len(k) == 0:        # a group without any subhalo, or without particles of this type
            ns = 0 if rng.random() < .6 else 1
            nsubs.append(ns)
            slen.extend([0] * ns)
        else:                                # a group whose central subhalo is too small
            ns = int(rng.integers(1, 4))
            nsubs.append(ns)
            first = min(len(k), max(0, minpt - 1))
            slen.extend([first] + [0] * (ns - 1))
        rv.append(rng.uniform(.1, 1))
        r2.append(rng.uniform(.1, 1))

    for k, ii in enumerate(cat.idx):
        while decoys and rng.random() < .4:
            decoy()
        start = len(order)
        order.extend(ii)
        sub = [take(int(rng.integers(0, 6))) for _ in range(int(rng.integers(0, 3)))]
        fuzz = take(int(rng.integers(0, 6)))
        for s in sub:
            order.extend(s)
        order.extend(fuzz)
        glen.append(len(order) - start)
        nsubs.append(1 + len(sub))
        slen.extend([len(ii)] + [len(s) for s in sub])
        rv.append(cat.r200[k])
        r2.append(cat.r200[k] * 1.37)
        objs.append((start, len(ii)))
    while decoys and rng.random() < .5:
        decoy()
    order.extend(free)
    order = np.array(order, int)
    lu, mu, vu = units
    glen6, slen6 = np.zeros((len(glen), 6), int), np.zeros((len(slen), 6), int)
    if decoys:
        glen6[:] = rng.integers(0, 50, glen6.shape)
        slen6[:] = rng.integers(0, 50, slen6.shape)
    glen6[:, ptype], slen6[:, ptype] = glen, slen
    fof = dict(len=glen6, nsubs=np.array(nsubs), rvir=np.array(rv) * lu, r200=np.array(r2) * lu)
    part = dict(pos=cat.xyz[order] * lu, vel=cat.v[order] * vu, mass=cat.m[order] * mu,
                id=rng.permutation(len(order)).astype(np.uint64) + np.uint64(2 ** 40))
    new = SimpleNamespace(**vars(cat))
    new.xyz, new.m, new.v = cat.xyz[order], cat.m[order], cat.v[order]
    new.idx = [np.arange(s, s + n) for s, n in objs]
    new.rvir = np.float64(np.float32(fof["rvir"]))[[i for i in range(len(glen)) if _is(i, nsubs, slen, minpt)]] / lu
    new.r200m = np.float64(np.float32(fof["r200"]))[[i for i in range(len(glen)) if _is(i, nsubs, slen, minpt)]] / lu
    return part, fof, slen6, new


def _is(i, nsubs, slen, minpt):
    return nsubs[i] > 0 and slen[int(np.sum(nsubs[:i]))] >= minpt


def simulation(rng, cat, d, center="mode", minpt=1, typ="dm", decoys=True, order=None):
    """The catalogue stored as a Gadget simulation in directory d and opened again: (object, catalogue as stored).

    Input units kpc/h, 1e10 Msun/h, km/s; output units are the internal ones; redshift 0."""
    import cosmic_profiles as cp
    import gen
    ptype = {"dm": 1, "stars": 4, "gas": 0}[typ]
    part, fof, subs, new = population(rng, cat, (1e3, 1.0, 1.0), ptype, minpt, decoys)
    head = header(rng, BoxSize=cat.L * 1e3, Redshift=0.0, Time=1.0)
    if rng.random() < .6:
        sp = write_hdf5(os.path.join(d, "snap_024"), {ptype: part}, head, int(rng.choice([1, 2])), rng)
    else:
        sp = write_binary(os.path.join(d, "snap_024"), {ptype: part}, head, int(rng.choice([1, 2])), rng, int(rng.choice([1, 2])))
    write_fof(os.path.join(d, "g"), fof, subs, int(rng.choice([1, 2, 3])), rng)
    new.r200 = new.rvir
    return reopen(d, center, minpt, typ), new


def reopen(d, center="mode", minpt=1, typ="dm"):
    """Opens a stored simulation (once more)."""
    import cosmic_profiles as cp
    import gen
    cp.updateInUnitSystem("kpc/h", "E+10Msun/h", "km/s", gen.H)
    cp.updateOutUnitSystem(**gen.INTERNAL)
    return cp.DensShapeProfsGadget(os.path.join(d, "snap_024"), os.path.join(d, "g"), typ, "024", os.path.join(d, "viz"), os.path.join(d, "cat"),
                                   RVIR_OR_R200="Rvir", MIN_NUMBER_PTCS=minpt, CENTER=center)
