"""C21: plots of a population show its shapes and densities, every object once and in its own bin; pictures of objects show them with their ellipsoid."""
import os
import numpy as np
import figs, gen, refs
from harness import Skip, load, set_threads

c11 = load("c11")


def run(ctx):
    all_ = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {all_[ctx.shard % len(all_)]})
    for what, quick, thorough in ((shapes, 160, 12000), (hists, 240, 16000), (dens, 48, 3000), (tilts, 300, 16000), (pictures, 160, 10000)):
        for i, rng in ctx.cases(quick, thorough, what.__name__, until=dict(shapes=.3, hists=.55, dens=.75, tilts=.8, pictures=1.0)[what.__name__]):
            gen.internal_units()
            try:
                what(ctx, rng, i)
            except Skip:
                continue
            finally:
                gen.internal_units()


def setup(ctx, rng, nobj, nmin=60, nmax=220, units=True, **kw):
    import cosmic_profiles as cp
    cat = gen.catalogue(rng, nobj=nobj, nmin=nmin, nmax=nmax, **kw)
    cat.r200 = cat.r200 * rng.uniform(.6, 1.2, len(cat.r200))
    center = str(rng.choice(["mode", "com"]))
    members = np.concatenate([np.asarray(ii) for ii in cat.idx])
    if rng.random() < .12 and len(np.unique(members)) == len(members):
        for ii in cat.idx:
            roundish(cat, np.asarray(ii, int), rng)
        ctx.ev("populations of nearly round objects")
    set_threads(int(rng.integers(1, 3)))
    o, cat = gen.make(cat, os.getcwd(), center, 1, snap="%03d" % rng.integers(0, 999))
    u = 1.0
    if units and rng.random() < .5:
        uo = c11.pick(rng, gen.H)
        cp.updateOutUnitSystem(**uo)
        u = c11.LEN["Mpc"] / gen.H / c11.cgs(uo["length_in_cm"], c11.LEN, gen.H)
    n = len(cat.idx)
    sel = rng.permutation(n)[:int(rng.integers(max(1, n // 2), n + 1))]
    ctx.describe(meta=cat.meta, center=center, sel=sel, r200=cat.r200, out_length=u)
    return o, cat, center, sel, u


def roundish(cat, ii, rng):
    """Makes an object that is all but spherical: a cloud and its images under the rotations of a tetrahedron."""
    n = len(ii) // 12
    if n == 0:
        return
    x = refs.unwrap(cat.xyz[ii], cat.L)
    c, r = x.mean(0), np.sqrt(((x - x.mean(0)) ** 2).sum(1).mean())
    y = rng.normal(size=(n, 3)) * r / np.sqrt(3)
    cyc = [y, y[:, [1, 2, 0]], y[:, [2, 0, 1]]]
    z = np.concatenate([u * f for u in cyc for f in ([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1])])
    z *= 1 - np.array([0, rng.uniform(.001, .03), rng.uniform(.001, .03)])[rng.permutation(3)]
    rest = rng.normal(size=(len(ii) - len(z), 3)) * r * .01
    z = np.concatenate([z, rest]) + c
    cat.xyz[ii] = z % cat.L if cat.L else z
    cat.m[ii[:12 * n]] = np.tile(cat.m[ii[:n]], 12)


def form(rng, sel):
    return sel.tolist() if rng.random() < .5 else np.int32(sel)


def masses(cat, sel):
    return np.array([cat.m[np.asarray(cat.idx[k], int)].sum() for k in sel])


def groups(M, nb):
    """Objects of each mass bin and its edges."""
    order = np.argsort(M)
    size = -(-len(M) // nb)
    g = [order[k:k + size] for k in range(0, len(M), size)]
    return g, [M[k[0]] for k in g] + [M[order[-1]]]


def number(s):
    """The value of a number as written in a legend."""
    sup = dict(zip("⁰¹²³⁴⁵⁶⁷⁸⁹⁻", "0123456789-"))
    s = s.replace("⠀", "").strip()
    mant, ten = s.split("✕") if "✕" in s else ("1", s) if s.startswith("10") and len(s) > 2 and s[2] in sup else (s, None)
    return float(mant) * (10.0 ** int("".join(sup[c] for c in ten[2:])) if ten else 1)


def legend(ctx, label, lo, hi):
    t = label.replace("$M:", "").split(r"\ M_")[0].split(" - ")
    ctx.check(len(t) == 2 and all(abs(number(a) / b - 1) < .0051 for a, b in zip(t, (lo, hi))), "the legend names the masses of the bin", label=label, masses=[lo, hi])


def stats(cols):
    f = [np.asarray(c)[~np.isnan(c)] for c in cols]
    med = np.array([np.median(c) if len(c) else np.nan for c in f])
    lo = np.array([np.quantile(c, .25) / np.sqrt(len(c)) if len(c) else np.nan for c in f])
    hi = np.array([np.quantile(c, .75) / np.sqrt(len(c)) if len(c) else np.nan for c in f])
    return med, med - lo, med + hi


def curve(ctx, fig, x, want, what, colour=None):
    """One curve and its band."""
    ax = fig["axes"][0]
    lines = [l for l in ax["lines"] if len(l["x"]) == len(x) and l["marker"] in ("None", "", "none", None)
             and not (len(x) == 2 and list(l["x"]) == [0, 1] and l["y"][0] == l["y"][1] == 2 / 3)]
    if not ctx.check(len(lines) == 1 and len(ax["fills"]) == 1, what + ": one curve with a band", lines=len(ax["lines"]), fills=len(ax["fills"])):
        return
    ctx.close(lines[0]["x"], x, what + ": radii", rtol=1e-12)
    ctx.close(lines[0]["y"], want[0], what + ": median", rtol=1e-6)
    lo, hi = figs.band(ax["fills"][0], x)
    ok = np.isfinite(want[0])
    ctx.close(lo[ok], want[1][ok], what + ": lower edge of the band", rtol=1e-6, atol=1e-9 * np.abs(want[0][ok]))
    ctx.close(hi[ok], want[2][ok], what + ": upper edge of the band", rtol=1e-6)
    ctx.check(ax["xscale"] == "log", what + ": logarithmic radii", scale=ax["xscale"])
    ctx.ev("radii plotted", int(ok.sum()))
    ctx.ev("radii without an object", int((~ok).sum()))


def collect(ctx, fn, really=False):
    got = figs.collect(fn, really)
    ctx.check(not figs.caller, "the caller's own figures stay as they were", complaints=figs.caller)
    ctx.ev("plots made while the caller has a figure open")
    return got


def shapes(ctx, rng, i):
    o, cat, center, sel, u = setup(ctx, rng, int(rng.integers(1, 10)), min_tiny=True)
    cfg = gen.katz(rng, nr=int(rng.integers(3, 9)), IT_WALL=int(rng.choice([8, 50, 100])))
    nb = int(rng.integers(1, 6))
    with ctx.target("getShapeCatLocal"):
        t = o.getShapeCatLocal(form(rng, sel), cfg)
    R = np.asarray(cfg["ROverR200"])
    with np.errstate(all="ignore"):
        T = (1 - t["q"] ** 2) / (1 - t["s"] ** 2)
    M = masses(cat, sel) * 1e10
    g, edges = groups(M, nb)
    with ctx.target("plotShapeProfs"):
        got = collect(ctx, lambda: o.plotShapeProfs(nb, form(rng, sel), cfg), rng.random() < .03)
    snap = o_snap(got)
    par = dict(q=t["q"], s=t["s"], T=T)
    names = {}
    for k, p in par.items():
        f = [x for x in got if x.startswith(k) and x[1] != "M"]
        if not ctx.check(len(f) == 1, "a figure for the whole population", figures=sorted(got), of=k):
            raise Skip()
        curve(ctx, got[f[0]], R, stats(p.T), "shape profiles of all objects")
        for j, gg in enumerate(g):
            names.setdefault("%sM%.2f" % (k, np.log10(edges[j])), []).append((j, k))
    for n, js in names.items():
        f = [x for x in got if x.startswith(n)]
        if not ctx.check(len(f) == 1, "a figure for every mass bin", figures=sorted(got), bin=n):
            raise Skip()
        j, k = js[-1]
        if len(js) > 1:         # bins with one name overwrite each other
            ctx.undec("two bins of one name")
            continue
        curve(ctx, got[f[0]], R, stats(par[k][g[j]].T), "shape profiles of a mass bin")
        legend(ctx, got[f[0]]["axes"][0]["fills"][0]["label"] if got[f[0]]["axes"][0]["fills"] else "", edges[j], edges[j + 1])
    extra = [x for x in got if not any(x.startswith(n) for n in names) and x[:1] in "qsT" and x[1] == "M"]
    ctx.check(not extra, "no mass bins beyond those asked for", extra=extra)
    ctx.ev("mass bins", len(g))
    ctx.sig("shapes", len(sel), nb, len(g), int(np.isnan(t["q"]).sum()), cfg["SHELL_BASED"], cfg["REDUCED"])


def o_snap(got):
    return None


def heights(vals, edges):
    v = vals[np.isfinite(vals)]
    w = np.diff(edges)
    c = np.array([((v >= a) & ((v < b) | ((k == len(w) - 1) & (v == b)))).sum() for k, (a, b) in enumerate(zip(edges[:-1], edges[1:]))], float)
    with np.errstate(all="ignore"):
        return c / (c.sum() * w), c


def hist(ctx, got, prefix, vals, nb, what):
    f = [x for x in got if x.startswith(prefix)]
    if not ctx.check(len(f) == 1 and len(got) == 1, what + ": one figure", figures=sorted(got)):
        raise Skip()
    edges = np.linspace(0, 1, nb)
    v = vals[np.isfinite(vals)]
    if len(v) and (np.abs(v[:, None] - edges[None]).min() < 1e-7):
        ctx.undec("a value on the edge of a bin")
        return
    want, c = heights(v, edges)
    bars = got[f[0]]["axes"][0]["bars"]
    if not ctx.check(len(bars) == nb - 1, what + ": number of bins", bars=len(bars), asked=nb):
        raise Skip()
    ctx.close([b[0] for b in bars], edges[:-1], what + ": bins", atol=1e-12)
    h = np.array([b[2] for b in bars], float)
    if c.sum() == 0:
        ctx.check(not (np.nan_to_num(h) > 0).any(), what + ": nothing is shown of nothing", heights=h)
        ctx.ev("empty histogram")
    else:
        ctx.close(h, want, what + ": share of the objects per bin", rtol=1e-9, atol=1e-12, values=v)
    ctx.ev("objects in histograms", int(c.sum()))
    ctx.ev("objects beyond histograms", int(len(vals) - c.sum()))
    ctx.sig(what, nb, int(c.sum()), tuple(c.astype(int)))


def eps_of(x, m, c):
    y = x - c
    w = m / m.sum()
    xx, yy, xy = (w * y[:, 0] ** 2).sum(), (w * y[:, 1] ** 2).sum(), (w * y[:, 0] * y[:, 1]).sum()
    with np.errstate(all="ignore"):
        return np.hypot(xx - yy, 2 * xy) / (xx + yy)


def tilts(ctx, rng, i):
    """The complex ellipticity of every object, also after a rotation about the line of sight."""
    import importlib
    f = getattr(importlib.import_module("cosmic_profiles.shape_profs.shape_profs_tools"), "getEpsilon", None)
    if f is None:
        raise Skip()
    cat = gen.catalogue(rng, nobj=int(rng.integers(1, 6)), nmin=20, nmax=120)
    center = str(rng.choice(["mode", "com"]))
    angle = float(rng.choice([0.0, np.pi / 2, -np.pi / 4, rng.uniform(-7, 7)]))
    flat, size = np.concatenate([np.asarray(k) for k in cat.idx]).astype(np.int32), np.int32([len(k) for k in cat.idx])
    ctx.describe(meta=cat.meta, center=center, angle=angle)
    with ctx.target("getEpsilon"):
        got = np.asarray(f(flat, size, cat.xyz, cat.m, cat.L, center, angle) if angle or rng.random() < .5 else f(flat, size, cat.xyz, cat.m, cat.L, center))
    if not ctx.check(got.shape == (len(size),), "an ellipticity for every object", shape=got.shape):
        return
    for k, ii in enumerate(cat.idx):
        ii = np.asarray(ii, int)
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb = refs.centre(x, m, center)
        if amb:
            ctx.undec("a centre hinges on rounding")
            continue
        y, w = x - c, m / m.sum()
        z = (y[:, 0] + 1j * y[:, 1]) * np.exp(1j * angle)
        d = (w * np.abs(z) ** 2).sum()
        if not d > 0:
            ctx.check(np.isnan(got[k]), "no ellipticity without extent", got=got[k])
            continue
        want = (w * z ** 2).sum() / d
        scale = (np.abs(x).max() + cat.L) / np.sqrt(d)
        ctx.check(abs(got[k] - want) <= 1e-7 + 1e-13 * scale ** 2, "ellipticity and its direction", got=got[k], want=want, object=k)
    ctx.sig("tilts", center, len(size), angle > 0, cat.L > 0)


def hists(ctx, rng, i):
    o, cat, center, sel, u = setup(ctx, rng, int(rng.integers(1, 12)), nmin=40, nmax=150, min_tiny=True)
    nb = int(rng.choice([2, 3, 5, 8, 11, 21]))
    kind = ["local T", "global T", "global eps", "local eps"][i % 4]
    cfg = gen.katz(rng, nr=int(rng.integers(2, 7)), IT_WALL=int(rng.choice([8, 50, 100])))
    R = np.asarray(cfg["ROverR200"])
    really = rng.random() < .03
    f = float(rng.uniform(.1, 1.3))
    if kind.endswith("T"):
        if kind == "local T":
            if rng.random() < .5:
                f = float(R[rng.integers(0, len(R))])
            near = np.sort(np.abs(R - f))
            if len(R) > 1 and near[1] - near[0] < 1e-9:
                raise Skip()
            with ctx.target("getShapeCatLocal"):
                t = o.getShapeCatLocal(form(rng, sel), cfg)[:, int(np.argmin(np.abs(R - f)))]
            with ctx.target("plotLocalTHist"):
                got = collect(ctx, lambda: o.plotLocalTHist(nb, f, form(rng, sel), cfg), really)
        else:
            with ctx.target("getShapeCatGlobal"):
                t = o.getShapeCatGlobal(form(rng, sel), cfg)
            with ctx.target("plotGlobalTHist"):
                got = collect(ctx, lambda: o.plotGlobalTHist(nb, form(rng, sel), cfg), really)
        with np.errstate(all="ignore"):
            v = (1 - t["q"] ** 2) / (1 - t["s"] ** 2)
        hist(ctx, got, "LocalTCount" if kind == "local T" else "GlobalTCount", v, nb, kind)
        return
    v, near = [], False
    for k in sel:
        ii = np.asarray(cat.idx[k], int)
        x, m = refs.unwrap(cat.xyz[ii], cat.L), cat.m[ii]
        c, amb = refs.centre(x, m, center)
        near |= amb
        if kind == "local eps":
            r = np.sqrt(((x - c) ** 2).sum(1))
            edge = f * cat.r200[k]
            near |= bool((np.abs(r - edge) < 1e-9 * max(edge, np.abs(x).max())).any())
            keep = r <= edge
            if not keep.any():
                ctx.ev("objects without particles that near")
                continue
            if keep.sum() < 3:      # all of an ellipticity of 0/0 or 1: hinges on rounding
                near = True
            x, m = x[keep], m[keep]
            c, amb = refs.centre(x, m, center)
            near |= amb
        v.append(eps_of(x, m, c))
    with ctx.target(kind):
        if kind == "local eps":
            if not v:
                raise Skip()
            got = collect(ctx, lambda: o.plotLocalEpsHist(f, nb, form(rng, sel)), really)
        else:
            got = collect(ctx, lambda: o.plotGlobalEpsHist(nb, form(rng, sel)), really)
    if near:
        ctx.undec("an object's members or centre hinge on rounding")
        return
    hist(ctx, got, "EpsCount", np.array(v), nb, kind)


MODELS = {"nfw": lambda x: 1 / (x * (1 + x) ** 2), "hernquist": lambda x: 1 / (x * (1 + x) ** 3)}


def dens(ctx, rng, i):
    import cosmic_profiles as cp
    o, cat, center, sel, u = setup(ctx, rng, int(rng.integers(1, 9)), nmin=6, nmax=40)
    profile = str(rng.choice(["nfw", "hernquist"]))
    method = dict(profile=profile, min_method=str(rng.choice(["Nelder-Mead", "L-BFGS-B"])))
    R = np.logspace(rng.uniform(-1.8, -1), rng.uniform(-.2, .2), int(rng.integers(8, 20)))
    Rf = np.logspace(rng.uniform(-1.8, -1), rng.uniform(-.2, .2), int(rng.integers(10, 25)))
    if len(R) == len(Rf):
        Rf = Rf[1:]
    conc = rng.uniform(3, 12)
    amp = 10 ** rng.normal(0, .6, len(sel))          # the median of one shape in many amplitudes is that shape
    nb = int(rng.integers(1, 5))
    unit = 10 ** rng.uniform(-3, 8)
    D, Df = unit * amp[:, None] * MODELS[profile](conc * R)[None], unit * amp[:, None] * MODELS[profile](conc * Rf)[None]
    if rng.random() < .5:        # what is shown need not be what is fitted
        D = D * 10 ** rng.normal(0, .3, D.shape)
    M = masses(cat, sel) * 1e10
    g, edges = groups(M, nb)
    with ctx.target("plotDensProfs"):
        got = collect(ctx, lambda: o.plotDensProfs(D, R, Df, Rf, method, nb, form(rng, sel)), rng.random() < .05)

    def one(fig, who, what):
        curve(ctx, fig, R, stats(D[who].T), what)
        ax = fig["axes"][0]
        fit = [l for l in ax["lines"] if len(l["x"]) == len(Rf)]
        if ctx.check(len(fit) == 1, what + ": one fit", lines=len(ax["lines"])):
            ctx.close(fit[0]["x"], Rf, what + ": radii of the fit", rtol=1e-12)
            ctx.close(fit[0]["y"], np.median(Df[who], axis=0), what + ": the fit is that of the median", rtol=2e-3, profile=profile, method=method["min_method"])
        ctx.check(ax["yscale"] == "log", what + ": logarithmic densities", scale=ax["yscale"])

    f = [x for x in got if x.startswith("RhoProf_")]
    if not ctx.check(len(f) == 1, "a figure for the whole population", figures=sorted(got)):
        raise Skip()
    one(got[f[0]], slice(None), "density profiles of all objects")
    names = {}
    for j in range(len(g)):
        names.setdefault("RhoProfM%.2f" % np.log10(edges[j]), []).append(j)
    for n, js in names.items():
        f = [x for x in got if x.startswith(n)]
        if not ctx.check(len(f) == 1, "a figure for every mass bin", figures=sorted(got), bin=n):
            raise Skip()
        if len(js) > 1:
            ctx.undec("two bins of one name")
            continue
        one(got[f[0]], g[js[0]], "density profiles of a mass bin")
        legend(ctx, got[f[0]]["axes"][0]["fills"][0]["label"], edges[js[0]], edges[js[0] + 1])
    ctx.check(len(got) == 1 + len(names), "no mass bins beyond those asked for", figures=sorted(got), bins=sorted(names))
    ctx.sig("dens", profile, method["min_method"], len(sel), len(g))


def pictures(ctx, rng, i):
    big = rng.random() < .04
    o, cat, center, sel, u = setup(ctx, rng, int(rng.integers(1, 4)), *(dict(nmin=5100, nmax=7000) if big else dict(nmin=60, nmax=220)).values())
    cfg = gen.katz(rng, nr=int(rng.integers(1, 13)), IT_WALL=100)
    sel = sel[:2]
    local = bool(rng.random() < .5)
    with ctx.target("shapes"):
        t = o.getShapeCatLocal(form(rng, sel), cfg) if local else o.getShapeCatGlobal(form(rng, sel), cfg)[:, None]
    with ctx.target("vizLocalShapes" if local else "vizGlobalShapes"):
        got = collect(ctx, lambda: (o.vizLocalShapes if local else o.vizGlobalShapes)(form(rng, sel), cfg), rng.random() < .03)
    pre = "LocalObj" if local else "GlobalObj"
    if not ctx.check(len(got) == len(sel), "one picture per object", figures=sorted(got), objects=sel):
        raise Skip()
    L = cat.L * u
    for k, n in enumerate(sel):
        f = [x for x in got if x.startswith("%s%d_" % (pre, n)) or x.startswith("%s%d" % (pre, n)) and not x[len(pre) + len(str(n))].isdigit()]
        # without a suffix, the snapshot follows the number of the object
        f = f or [x for x in got if x.startswith("%s%d" % (pre, n))]
        if not ctx.check(len(f) >= 1, "one picture per object", figures=sorted(got), objects=sel):
            raise Skip()
        pts = [p["xyz"] for p in got[f[0]]["axes"][0]["points"]]
        ii = np.asarray(cat.idx[n], int)
        x = refs.unwrap(cat.xyz[ii], cat.L)
        c, amb = refs.centre(x, cat.m[ii], center)
        sc = np.abs(x).max() * u
        ext = np.abs(x - c).max() * u
        if big:
            ctx.ev("pictures of some of very many particles")
        one = [p for p in pts if len(p) == 1]
        clouds = [p for p in pts if len(p) == min(len(ii), 5000)]
        ells = [p for p in pts if len(p) == 500]
        if not ctx.check(len(one) == 1 and len(clouds) >= 1, "a picture has particles and a centre", sizes=[len(p) for p in pts], members=len(ii)):
            raise Skip()
        cen, cloud = one[0][0], clouds[0]
        # particles are members, none twice
        want = x * u - cen
        have = cloud - cen
        if L:
            want, have = want - L * np.rint(want / L), have - 0.0
        d = np.sort(np.abs(have[:, None, :] - want[None]).max(2) if len(have) < 600 else nearest(have, want), axis=1)[:, 0] if len(have) < 600 else nearest(have, want)
        ctx.check((d <= 5e-7 * sc).all(), "the particles are shown where they are, next to the centre", largest=d.max(), extent=ext, L=L, centre=cen, cloud=cloud.mean(0),
                  straddle=cat.meta["straddle"][n])
        ctx.check(len(np.unique(cloud, axis=0)) >= len(np.unique(want, axis=0)) if len(ii) <= 5000 else len(np.unique(cloud, axis=0)) > 4990, "every particle is shown once")
        if cat.meta["straddle"][n]:
            ctx.ev("pictures of objects across the box")
        if not amb:
            dc = refs.wrap_diff(cen / u, c, cat.L) if cat.L else cen / u - c
            ctx.check((np.abs(dc) <= 1e-6 * ext / u + 5e-7 * sc / u).all(), "the centre is that of the object", got=cen / u, ref=c, centre=center)
        # ellipsoid of the outermost radius
        row = t[k, -1]
        if np.isnan(row["q"]):
            ctx.check(all(np.isnan(e).any() for e in ells if len(e)) or t["q"].size > 1, "no ellipsoid where there is no shape", q=row["q"])
            ctx.ev("no shape to show")
        else:
            if not ctx.check(len(ells) > 0, "an ellipsoid is shown", sizes=[len(p) for p in pts]):
                raise Skip()
            ax = np.stack([row["major"], row["inter"], row["minor"]]) * 1.0
            semi = row["d"] * np.array([1, row["q"], row["s"]])
            res = [np.abs((((e - cen) @ ax.T / semi) ** 2).sum(1) - 1).max() for e in ells]
            ctx.check(min(res) < 1e-6 + 1e-6 * sc / semi.min(), "the ellipsoid is that of the object", residual=res, semi=semi)
            e = ells[int(np.argmin(res))]
            ctx.check((np.abs(((e - cen) @ ax.T / semi)).max(0) > .97).all(), "the whole ellipsoid is shown", reach=np.abs(((e - cen) @ ax.T / semi)).max(0))
            ctx.ev("ellipsoids")
        # arrows are axes of the object at one of its radii
        bad = []
        for a in got[f[0]]["axes"][0]["arrows"]:
            v = a[0][-1] - a[0][0]
            ok = np.isnan(v).any() or np.linalg.norm(v) == 0
            for row in t[k]:
                if ok or np.isnan(row["q"]):
                    continue
                for nm, l in (("major", row["d"]), ("inter", row["q"] * row["d"]), ("minor", row["s"] * row["d"])):
                    w = row[nm] * l
                    ok = ok or min(np.abs(v - w).max(), np.abs(v + w).max()) < 1e-6 * np.linalg.norm(w) + 1e-7 * sc
            if not ok:
                bad.append((v, np.linalg.norm(v)))
            ctx.ev("arrows")
        ctx.check(not bad, "arrows are principal axes", bad=bad[:2], d=t[k]["d"], q=t[k]["q"])
        ctx.sig("picture", local, len(cfg["ROverR200"]), cat.meta["straddle"][n], bool(np.isnan(t[k, -1]["q"])), round(float(np.nan_to_num(t[k, -1]["q"])), 1))


def nearest(a, b):
    from scipy.spatial import cKDTree
    return cKDTree(b).query(a, p=np.inf)[0]
