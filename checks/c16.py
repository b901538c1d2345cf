"""C16: the caches are transparent, bounded and least-recently-used, also under concurrent use."""
import collections, contextlib, os, shutil, sys, threading, time
import numpy as np
import snap
from harness import Skip, load

c13 = load("c13")


def run(ctx):
    for i, rng in ctx.cases(4000, 200000, "seq"):
        with contextlib.suppress(Skip):
            sequence(ctx, rng)
    for i, rng in ctx.cases(800, 20000, "conc"):
        with contextlib.suppress(Skip):
            concurrent(ctx, rng)
    for i, rng in ctx.cases(1000, 20000, "np"):
        with contextlib.suppress(Skip):
            arrays(ctx, rng)
    for i, rng in ctx.cases(400, 6000, "cat"):
        d = os.path.join(os.getcwd(), "sim%s_%d" % (ctx.case, ctx.seed))
        try:
            catalogues(ctx, rng, d)
        except Skip:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


class Boom(Exception):
    pass


class Model:
    """What a cache is documented to do."""

    def __init__(self, maxsize, typed, low):
        self.max, self.typed, self.low = maxsize, typed, low
        self.d = collections.OrderedDict()
        self.hits = self.misses = 0
        self.full = False

    def key(self, a, k):
        key = (a, tuple(sorted(k.items())))
        if self.typed:
            key += (tuple(type(v) for v in a), tuple((n, type(v)) for n, v in sorted(k.items())))
        return repr(key)

    def call(self, a, k, raises):
        """-> whether the function behind is expected to run."""
        if self.max == 0:
            self.misses += not raises
            return True
        key = self.key(a, k)
        if key in self.d:
            self.hits += 1
            self.d.move_to_end(key)
            return False
        if raises:
            return True
        self.misses += 1
        if self.low is not None:
            if self.full:
                self.d.popitem(False)
            self.d[key] = 1
            self.full = self.full or self.low()
        else:
            self.d[key] = 1
            if self.max is not None and len(self.d) > self.max:
                self.d.popitem(False)
        return True

    def clear(self):
        self.d.clear()
        self.hits = self.misses = 0
        self.full = False


class Memory:
    """Stands in for psutil while a sequence runs; counts whether the cache asks for it at all."""

    def __init__(self):
        self.avail, self.asked = 10 ** 12, 0

    def __call__(self):
        self.asked += 1
        return collections.namedtuple("svmem", "available total")(self.avail, 10 ** 12)


def sequence(ctx, rng):
    from cosmic_profiles.common import caching
    kind = str(rng.choice(["bounded", "none", "zero", "memory"], p=[.5, .1, .05, .35]))
    typed = bool(rng.random() < .4)
    maxsize = {"bounded": int(rng.choice([1, 2, 3, 5, 8])), "none": None, "zero": 0, "memory": None}[kind]
    mem = Memory()
    kw, low, real = dict(maxsize=maxsize, typed=typed), None, None
    if kind == "memory":
        mode = str(rng.choice(["never", "always", "later"]))
        kw["use_memory_up_to"] = {"never": 1, "always": 1e18, "later": 5e9}[mode]
        low = {"never": lambda: False, "always": lambda: True, "later": lambda: mem.avail < 5e9}[mode]
        if mode == "later":
            real = caching.psutil.virtual_memory
            caching.psutil.virtual_memory = mem
    log, bad = [], set()
    depth = bool(rng.random() < .2)

    @caching.lru_cache(**kw)
    def f(*a, **k):
        "doc of f"
        log.append((a, k))
        if repr((a, sorted(k.items()))) in bad:
            raise Boom()
        if depth and a and type(a[0]) is int and a[0] > 0:       # calls itself through its cache
            return ("rec", a, f(a[0] - 1))
        return (a, tuple(sorted(k.items())), tuple(type(v).__name__ for v in a))
    ctx.describe(kind=kind, typed=typed, maxsize=maxsize, kw=str(kw), recursive=depth)
    model = Model(maxsize, typed, low)
    nk = int(rng.integers(2, 12))
    vals = [0, 1, 2, 3, "0", "1", (1,), (0, "a"), None, b"x", ("a", 1), frozenset([2]), "a", -1, 10 ** 30]
    if typed:
        vals += [1.0, True, 0.0, False, 2.0]
    else:
        vals += [1.5, 2.5]
    calls = []
    for _ in range(nk):
        a = tuple(vals[int(j)] for j in rng.integers(0, len(vals), int(rng.integers(0, 3))))
        k = {n: vals[int(rng.integers(len(vals)))] for n in ("a", "b", "zz") if rng.random() < .2}
        calls.append((a, k))
        if k and rng.random() < .3:      # the same things as positional arguments
            calls.append((a + tuple(x for n in sorted(k) for x in (n, k[n])), {}))
            if not typed:
                calls.append((a + tuple(sorted(k.items())), {}))
            calls.append((a + tuple(k[n] for n in sorted(k)), {}))
        if rng.random() < .1:
            bad.add(repr((a, sorted(k.items()))))
    try:
        ctx.check(f.__name__ == "f" and f.__doc__ == "doc of f", "wrapped function keeps its name and documentation")
        for step in range(int(rng.integers(20, 150))):
            r = rng.random()
            if r < .02:
                f.cache_clear()
                model.clear()
                if kind == "memory":
                    mem.avail = 10 ** 12
                ctx.ev("cleared")
            elif r < .04 and kind == "memory":
                mem.avail = 10 ** 9
            else:
                a, k = calls[int(rng.integers(len(calls)))]
                replay(ctx, f, model, a, k, bad, log, depth)
            ci = f.cache_info()
            if real is not None and model.misses and mem.asked == 0:
                ctx.undec("available memory is not asked for through psutil")
                return
            ctx.check((ci.hits, ci.misses, ci.currsize) == (model.hits, model.misses, len(model.d)), "statistics: %s cache" % kind,
                      got=list(ci), expected=[model.hits, model.misses, maxsize, len(model.d)], step=step)
            if ctx._viol_case:
                return
        ctx.sig(kind, typed, maxsize, min(model.hits, 40) // 8, len(model.d), depth, bool(bad))
        ctx.ev("evictions", max(0, model.misses - len(model.d)))
        ctx.ev("hits", model.hits)
    finally:
        if real is not None:
            caching.psutil.virtual_memory = real


def replay(ctx, f, model, a, k, bad, log, depth):
    """One call; the model replays the calls that the function makes to itself, innermost last to finish first."""
    def expect(a, k):
        key = repr((a, sorted(k.items())))
        if model.max != 0 and model.key(a, k) in model.d:
            model.call(a, k, False)
            return value(a, k), []
        if key in bad:
            model.call(a, k, True)
            return Boom, [(a, k)]
        ran = [(a, k)]
        if depth and a and type(a[0]) is int and a[0] > 0:
            v, more = expect((a[0] - 1,), {})
            ran += more
            if v is Boom:
                return Boom, ran
        model.call(a, k, False)
        return value(a, k), ran

    def value(a, k):
        if depth and a and type(a[0]) is int and a[0] > 0:
            return ("rec", a, value((a[0] - 1,), {}))
        return (a, tuple(sorted(k.items())), tuple(type(v).__name__ for v in a))
    if depth and a and type(a[0]) is int and a[0] > 20:
        return
    want, ran = expect(a, k)
    n = len(log)
    with ctx.target("cached function"):
        try:
            got = f(*a, **k)
        except Boom:
            got = Boom
    if want is Boom or got is Boom:
        ctx.check(got is want, "a failing call fails again and is not remembered", args=repr((a, k)))
    else:
        ctx.check(got == want and repr(got) == repr(want), "result is that of the function for these arguments", args=repr((a, k)), got=repr(got))
    ctx.check(log[n:] == ran and repr(log[n:]) == repr(ran), "the function runs exactly when its result is not remembered", args=repr((a, k)),
              got=repr(log[n:])[:200], expected=repr(ran)[:200])


def concurrent(ctx, rng):
    """Threads share a cache; the recorded history is judged afterwards."""
    from cosmic_profiles.common import caching
    nthr, nkeys = int(rng.integers(2, 7)), int(rng.integers(1, 9))
    kind = str(rng.choice(["bounded", "ample", "none", "memory"], p=[.55, .2, .1, .15]))
    maxsize = {"bounded": int(rng.integers(1, max(2, nkeys))), "ample": nkeys + 3, "none": None, "memory": None}[kind]
    kw = dict(maxsize=maxsize)
    if kind == "memory":
        kw["use_memory_up_to"] = float(rng.choice([1, 1e18]))
    clears = bool(rng.random() < .3)
    per = 60 if ctx.quick else 150
    plans = [[(int(rng.integers(nkeys)), float(rng.random()), int(rng.integers(3))) for _ in range(per)] for _ in range(nthr)]
    runs, hist, over, errs = [], [], [], []
    tick = iter(range(10 ** 9))
    clock = tick.__next__

    @caching.lru_cache(**kw)
    def f(k):
        t = clock()
        d = delays[threading.get_ident()]
        if d == 1:
            time.sleep(0)
        elif d == 2:
            time.sleep(1e-5)
        v = ("value", k, t)
        runs.append((k, t, clock()))
        return v
    delays = {}
    go = threading.Barrier(nthr + 1)
    done = threading.Event()

    def work(plan):
        me = threading.get_ident()
        try:
            go.wait()
            for k, r, dl in plan:
                delays[me] = dl
                t0 = clock()
                if clears and r < .03:
                    f.cache_clear()
                    hist.append(("clear", None, t0, clock(), None))
                else:
                    v = f(k)
                    hist.append(("call", k, t0, clock(), v))
        except BaseException as e:
            errs.append(repr(e))

    def watch():
        while not done.is_set():
            ci = f.cache_info()
            if maxsize is not None and ci.currsize > maxsize or ci.currsize > nkeys:
                over.append(ci.currsize)
            ctx.events["size observed while in use"] += 1
            time.sleep(2e-5)
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    ctx.describe(threads=nthr, keys=nkeys, kind=kind, maxsize=maxsize, clears=clears)
    try:
        ts = [threading.Thread(target=work, args=(p,), daemon=True) for p in plans] + [threading.Thread(target=watch, daemon=True)]
        for t in ts:
            t.start()
        go.wait()
        for t in ts[:-1]:
            t.join(60)
        alive = any(t.is_alive() for t in ts[:-1])
        done.set()
        ts[-1].join(60)
    finally:
        sys.setswitchinterval(old)
    if not ctx.check(not alive and not ts[-1].is_alive(), "threads sharing a cache finish"):
        raise Skip()
    if not ctx.check(not errs, "threads sharing a cache meet no error", errors=errs[:3]):
        return
    ctx.check(not over, "a cache never holds more than it may", seen=over[:5])
    calls = [h for h in hist if h[0] == "call"]
    computed = {(k, t): (t, e) for k, t, e in runs}
    ok = all(h[4][1] == h[1] and (h[1], h[4][2]) in computed for h in calls)
    ctx.check(ok, "every result was computed for its key", n=len(calls))
    if not ok:
        return
    # a result must have been ready before the call that got it ended, and be its own or of a call overlapping or before
    late = [h for h in calls if computed[(h[1], h[4][2])][1] > h[3]]
    ctx.check(not late, "no result is returned before it is computed")
    ci = f.cache_info()
    own = {}
    for k, t, e in runs:
        own.setdefault(k, []).append((t, e))
    if not clears and kind != "none":
        ctx.check(ci.hits + ci.misses == len(calls) and ci.misses == len(runs), "every call is counted once, as a hit or a miss", hits=ci.hits,
                  misses=ci.misses, calls=len(calls), runs=len(runs))
    if not clears and (kind in ("ample", "none") or kind == "memory" and kw["use_memory_up_to"] == 1):
        # nothing is ever dropped: a computation may start only if no call for its key had ended before
        first = {}
        for h in sorted(calls, key=lambda h: h[3]):
            first.setdefault(h[1], h[3])
        stale = [(k, t) for k, t, _ in runs if t > first[k] and not any(h[2] <= first[k] and h[1] == k and h[2] < t < h[3] for h in calls)]
        ctx.check(not stale, "what was remembered is not computed again", again=stale[:3])
        ctx.check(ci.currsize == len({h[1] for h in calls}), "one entry per key", got=ci.currsize)
        # real-time order: a call that begins after another for its key has ended gets a result at least as old as... the remembered one
    ctx.ev("computed twice at the same time", sum(1 for k in own for x, y in zip(sorted(own[k]), sorted(own[k])[1:]) if y[0] < x[1]))
    ctx.ev("calls from threads", len(calls))
    ctx.sig(kind, nthr, maxsize, clears, len(runs) // 8, sum(1 for a, b in zip(sorted(hist, key=lambda h: h[2]), sorted(hist, key=lambda h: h[2])[1:])
                                                          if b[2] < a[3]) // 8)
    # afterwards the cache must still work as documented
    if kind in ("bounded", "ample"):
        base = 1000
        delays[threading.get_ident()] = 0
        n = maxsize
        for k in range(base, base + n):
            f(k)
        r0 = len(runs)
        for k in range(base, base + n):
            f(k)
        ctx.check(len(runs) == r0 and f.cache_info().currsize == n, "after concurrent use: holds the latest entries", runs=len(runs) - r0, size=f.cache_info().currsize, maxsize=n)
        f(base + n)                    # evicts the oldest only
        r0 = len(runs)
        for k in range(base + 1, base + n + 1):
            f(k)
        again = len(runs) - r0
        f(base)
        ctx.check(again == 0 and len(runs) == r0 + 1, "after concurrent use: evicts the least recently used", again=again)


def arrays(ctx, rng):
    """Functions of arrays and lists of lists."""
    from cosmic_profiles.common import caching, config
    import cosmic_profiles as cp
    g0, s0 = config.GBs, config.CACHE_MAXSIZE
    gbs, ms = float(rng.choice([0, 0, 1e-9, 1e9, 2])), [None, 0, 1, 2, 128][int(rng.integers(5))]
    na, nl = int(rng.integers(0, 4)), int(rng.integers(0, 3))
    nx = int(rng.integers(0, 3))
    log = []
    cp.updateCachingMaxGBs(gbs)
    cp.updateCachingMaxSize(ms)
    try:
        ctx.check(config.GBs == gbs and config.CACHE_MAXSIZE == ms, "limits are taken over")

        @caching.np_cache_factory(na, nl)
        def f(*args):
            "doc"
            log.append(1)
            return freeze(args)
    finally:
        cp.updateCachingMaxGBs(g0)
        cp.updateCachingMaxSize(s0)

    def freeze(args):
        out = []
        for j, x in enumerate(args):
            if j < na:
                assert isinstance(x, np.ndarray)
                out.append((x.shape, x.dtype.kind + str(x.dtype.itemsize), x.ravel().tolist()))
            elif j < na + nl:
                out.append([list(r) for r in x])
            else:
                out.append(x)
        return out
    base = rng.integers(0, 3, 6).astype(rng.choice(["f8", "i4", "f4", "i8"]))
    if base.dtype.kind == "f":
        base = base + np.asarray(rng.choice([0, 1e-3], 6), base.dtype)
    dt = base.dtype

    def arr():
        x = base.copy()
        r = rng.random()
        if r < .3:
            x[int(rng.integers(6))] += 1
        elif r < .5:
            x = x[::-1].copy()
        elif r < .6 and dt == np.float64:
            x[0] = np.nextafter(x[0], 9)
        x = x.reshape([(6,), (2, 3), (3, 2), (1, 6), (6, 1)][int(rng.integers(5))])
        if rng.random() < .2:
            x = np.asfortranarray(x)
        if rng.random() < .1:
            x = x[:0] if x.ndim == 1 or rng.random() < .6 else x[:, :0]
        if rng.random() < .1:            # the same numbers in another type are other arguments
            x = x.astype("f8" if dt != np.float64 else "f4")
        return x

    def lists():
        v = [0, 1, 2]
        return [[[0, 1], [2]], [[0], [1, 2]], [[0, 1, 2]], [[2], [0, 1]], [[]], []][int(rng.integers(6))]
    ctx.describe(arrays=na, lists=nl, gbs=gbs, maxsize=ms, dtype=str(dt))
    seen = {}
    for _ in range(30 if ctx.quick else 80):
        args = [arr() for _ in range(na)] + [lists() for _ in range(nl)] + [[0, "x", None, 2.5][int(rng.integers(4))] for _ in range(nx)]
        want = freeze(args)
        keep = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
        n = len(log)
        with ctx.target("cached function of arrays"):
            got = f(*args)
        ctx.check(repr(got) == repr(want), "functions of arrays: result is that of the function for these arguments", got=repr(got)[:300], expected=repr(want)[:300])
        ctx.check(all(np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b for a, b in zip(args, keep)), "functions of arrays: arguments are left alone")
        again = repr(want) in seen
        if (gbs >= 1e-9 and gbs < 1 or gbs == 0 and ms is None):      # nothing is ever dropped
            ctx.check(len(log) - n == (0 if again else 1), "functions of arrays: remembered", again=again)
        elif gbs == 0 and ms == 0:
            ctx.check(len(log) - n == 1, "functions of arrays: nothing is remembered with a limit of zero")
        seen[repr(want)] = 1
        for a in args[:na]:              # what the caller does with its arrays later is its own business
            if a.size and rng.random() < .3:
                a.flat[0] += 1
    ci = f.cache_info()
    if gbs == 0 and ms is not None:
        ctx.check(ci.currsize <= ms, "functions of arrays: never holds more than it may", got=ci.currsize, limit=ms)
    if gbs == 1e9:
        ctx.check(ci.currsize <= 1, "functions of arrays: nothing is added once memory is scarce", got=ci.currsize)
    f.cache_clear()
    ctx.check(f.cache_info().currsize == 0, "functions of arrays: can be cleared")
    ctx.sig(na, nl, nx, gbs, ms, str(dt), min(len(seen), 20))


def catalogues(ctx, rng, d):
    """The memoised readers of group files answer as if they were not, in any order of questions."""
    import cosmic_profiles as cp
    from cosmic_profiles.gadget import read_fof
    from cosmic_profiles.gadget.gen_catalogues import calcObjCat
    sims = []
    for s in range(int(rng.integers(1, 4))):
        minpt = int(rng.choice([2, 5, 10]))
        fof, subs = c13.groups(rng, 1, minpt)
        _, other = c13.groups(rng, 4, minpt)
        fof["len"][:, 4] = np.maximum(fof["len"][:, 4], 40 * fof["nsubs"])
        subs[:, 4] = rng.integers(0, 40, len(subs))
        subs[:, 0] = 0
        sims.append((snap.write_fof(os.path.join(d, "g%d" % s), fof, subs, int(rng.choice([1, 2, 5])), rng), fof, subs))
    ctx.describe(sims=len(sims), groups=[len(s[1]["nsubs"]) for s in sims])
    asked = []
    for q in range(12 if ctx.quick else 40):
        if asked and rng.random() < .3:
            g, fof, subs, typ, pt, which, minpt, h, lu = asked[int(rng.integers(len(asked)))]
            ctx.ev("asked again")
        else:
            g, fof, subs = sims[int(rng.integers(len(sims)))]
            typ, pt = [("dm", 1), ("stars", 4)][int(rng.integers(2))]
            which, minpt = str(rng.choice(["Rvir", "R200"])), int(rng.choice([2, 5, 10, 25]))
            h, lu = float(rng.choice([.5, .7])), str(rng.choice(["kpc/h", "Mpc/h", "Mpc", "kpc"]))
            asked.append((g, fof, subs, typ, pt, which, minpt, h, lu))
        cp.updateInUnitSystem(lu, "E+10Msun/h", "km/s", h)
        fac = {"k": 1e-3, "M": 1}[lu[0]] * (1 if lu.endswith("h") else h)
        exp, _ = c13.reference(fof, subs, pt, minpt)
        rr = np.float64(np.float32(fof["rvir" if which == "Rvir" else "r200"])) * fac
        with ctx.target("getFoFSHData, calcObjCat"):
            a, b, c, r = read_fof.getFoFSHData(g, which, pt)
            ctx.check(np.array_equal(a, fof["nsubs"]) and np.array_equal(b, subs[:, pt]) and np.array_equal(c, fof["len"][:, pt]), "interleaved questions: group tables",
                      type=typ, radius=which, question=q)
            ctx.close(r, rr, "interleaved questions: radii", rtol=1e-6)
            ci, cr, cs = calcObjCat(a, b, c, r, minpt)
        ei = np.concatenate([np.arange(s, s + n) for s, n, _ in exp]) if exp else np.zeros(0, int)
        ctx.check(np.array_equal(ci, ei) and np.array_equal(cs, [n for _, n, _ in exp]), "interleaved questions: objects", type=typ, minpt=minpt, question=q)
        ctx.close(cr, [rr[k] for _, _, k in exp], "interleaved questions: radii of the objects", rtol=1e-6)
    ctx.sig("cat", len(sims), len(asked))
