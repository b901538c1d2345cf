"""C01: shapes equal an independent evaluation of the documented iteration, at every object and radius."""
import numpy as np
import gen, refs
from harness import Skip, set_threads

FIELDS = ("d", "q", "s", "is_conv", "minor", "inter", "major")


def compare(ctx, got, k, j, ref, d, where, qtol=1e-5):
    """One (object, radius) observation against the reference."""
    g = {f: np.asarray(got[f][k] if j is None else got[f][k][j], float) for f in ("q", "s", "minor", "inter", "major")}
    gd = float(got["d"][k] if j is None else got["d"][k][j])
    conv = bool(got["is_conv"][k] if j is None else got["is_conv"][k][j])
    if ref["amb"] or ref["ok"] is None:
        ctx.undec("reference within rounding of a decision")
        return
    ctx.sig(where, ref["why"], ref.get("it", 0), int(np.log2(max(ref["n"], 1))), ref["ok"] and round(ref["q"], 1), ref["ok"] and round(ref["s"], 1))
    if not ref["ok"]:
        ctx.ev("unclassified: " + ref["why"])
        ctx.check(np.isnan(gd) and np.isnan(g["q"]) and not conv, where + ": unclassified exactly when the iteration fails",
                  obj=k, radius=j, ref=ref, d=gd, q=float(g["q"]), conv=conv)
        return
    ctx.ev("classified")
    if not ctx.check(conv and abs(gd - d) <= 1e-6 * d, where + ": classified at its radius", obj=k, radius=j, ref_q=ref["q"], d=gd, expected_d=d, conv=conv,
                     it=ref["it"], n=ref["n"]):
        return
    ctx.close([g["q"], g["s"]], [ref["q"], ref["s"]], where + ": axis ratios", rtol=qtol, obj=k, radius=j, it=ref["it"], n=ref["n"])
    tol = 1e-5 / max(ref["gap"], 1e-12)
    if tol < 1e-2:
        for name, ax in zip(("major", "inter", "minor"), ref["axes"]):
            c = abs(float(g[name] @ ax))
            ctx.check(abs(c - 1) < max(tol ** 2, 1e-7) * 10, where + ": axis direction", axis=name, obj=k, radius=j, cos=c, got=g[name], ref=ax)
    else:
        ctx.undec("axes nearly degenerate")


def run(ctx):
    import os
    tmp = os.getcwd()
    gen.internal_units()
    for i, rng in ctx.cases(5000, 120000):
        try:
            one(ctx, rng, tmp, i)
        except Skip:
            continue


def one(ctx, rng, tmp, i):
    cat = gen.catalogue(rng, many=.02, nmin=40, nmax=int(rng.choice([120, 400, 1500, 6000], p=[.4, .35, .22, .03])), min_tiny=rng.random() < .3)
    if rng.random() < .1:
        cat.r200[rng.integers(0, len(cat.r200))] = 0.0
    if rng.random() < .06:           # particles that weigh nothing still count as particles
        for ii in cat.idx:
            cat.m[ii[rng.random(len(ii)) < rng.choice([.1, .5])]] = 0.0
        if any(cat.m[ii].sum() == 0 for ii in cat.idx):
            return
        ctx.ev("objects with massless particles", len(cat.idx))
    center = str(rng.choice(["mode", "com"]))
    cfg = gen.katz(rng)
    th = int(rng.integers(1, 9))
    set_threads(th)
    obj, cat = gen.make(cat, tmp, center, 1, rng=rng)
    sel = rng.permutation(len(cat.idx))[:int(rng.integers(1, len(cat.idx) + 1))]
    ctx.describe(meta=cat.meta, katz={k: np.asarray(v).tolist() for k, v in cfg.items()}, center=center, sel=sel, form=cat.form, threads=th)
    selarg = sel.tolist() if rng.random() < .5 else sel
    with ctx.target("getShapeCatLocal"):
        loc = obj.getShapeCatLocal(selarg, cfg)
    with ctx.target("getShapeCatGlobal"):
        glo = obj.getShapeCatGlobal(selarg, cfg)
    nr = len(cfg["ROverR200"])
    for nm, r, sh in (("local", loc, (len(sel), nr)), ("global", glo, (len(sel),))):
        ctx.check(all(r[f].shape == sh + ((3,) if f in ("minor", "inter", "major") else ()) for f in FIELDS), nm + ": result shapes",
                  shapes={f: r[f].shape for f in FIELDS})
    for k, o in enumerate(sel):
        ii = np.asarray(cat.idx[o], int)
        x = refs.unwrap(cat.xyz[ii], cat.L)
        m = cat.m[ii]
        c, amb = refs.centre(x, m, center)
        x = x - c
        kw = dict(reduced=cfg["REDUCED"], tol=cfg["IT_TOL"], wall=cfg["IT_WALL"], itmin=cfg["IT_MIN"])
        r200 = cat.r200[o]
        for j, R in enumerate(cfg["ROverR200"]):
            d = r200 * R
            if r200 == 0:
                ref = dict(ok=False, why="no extent", amb=False, n=0)
            else:
                delta = None
                if cfg["SHELL_BASED"]:
                    delta = d if j == 0 else r200 * (R - cfg["ROverR200"][j - 1])
                ref = refs.robust_katz(x, m, d, delta, **kw)
            ref["amb"] |= amb
            compare(ctx, loc, k, j, ref, d, "local shell" if cfg["SHELL_BASED"] else "local ellipsoid")
        ref = refs.robust_katz(x, m, r200 + 6.0, None, **kw)
        ref["amb"] |= amb
        compare(ctx, glo, k, None, ref, r200 + 6.0, "global")
    ctx.ev("objects", len(sel))
