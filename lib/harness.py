"""Runs one property's monitors over generated executions of the real code, sharded over processes.

check.py (parent)  -> builds /repo's tree, starts shards, merges their logs, writes evidence, decides
shard (this file)  -> imports checks/<pid>.py and calls its run(ctx)

Verdicts of a monitor are three-valued: pass, violation, undecided (the reference itself is within
rounding of a decision boundary). Undecided observations are counted, never reported.
"""
import collections, contextlib, hashlib, importlib.util, json, os, sys, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, seed, shard, nshards, only_case=None, budget=600.0, out=None):
        self.pid, self.tier, self.seed, self.shard, self.nshards = pid, tier, seed, shard, nshards
        self.only = only_case
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = budget
        self.events = collections.Counter()
        self.undecided = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.findings = []
        self.cases_run = 0
        self.cases_skipped = 0
        self.evaluations = 0
        self.case = None
        self.desc = None
        self.out = out
        self._viol_case = False

    # ---- workload -------------------------------------------------------------------------
    def cases(self, quick, thorough, stream="", until=1.0):
        """Yields (case id, rng); ids are spread over the shards; the rng depends on seed and id only."""
        import numpy as np
        n = quick if self.quick else thorough
        key = zlib.crc32((self.pid + stream).encode())
        for i in range(n):
            cid = "%s%d" % (stream, i)
            if self.only is not None:
                if cid != self.only:
                    continue
            elif (i + (key >> 3)) % self.nshards != self.shard:
                continue
            if time.time() - self.t0 > self.budget * until:
                self.cases_skipped += 1
                continue
            self.case = cid
            self.desc = None
            self._viol_case = False
            self.journal()
            self.cases_run += 1
            yield i, np.random.default_rng([self.seed, key, i])
            if self.only is None and len(self.violations) >= 5:
                return
        self.case = None
        self.journal()

    def once(self, name):
        """A fixed (not generated) case, run on one shard."""
        for _ in self.cases(1, 1, stream=name):
            yield True

    def describe(self, **kw):
        self.desc = kw
        if len(self.samples) < 3:
            self.samples.append(_short(dict(case=self.case, **kw)))
        self.journal()

    def journal(self):
        if self.out:
            with open(self.out + ".journal", "w") as f:
                json.dump({"case": self.case, "desc": _short(self.desc)}, f, default=str)

    # ---- observations ---------------------------------------------------------------------
    def ev(self, kind, n=1):
        self.events[kind] += int(n)

    def sig(self, *parts):
        """Counts distinct behaviours seen (not inputs): parts are discretised observations."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    def undec(self, kind, n=1):
        self.undecided[kind] += int(n)

    def check(self, ok, what, **detail):
        self.evaluations += 1
        self.events[what] += 1
        if not bool(ok):
            self.fail(what, **detail)
        return bool(ok)

    def fail(self, what, **detail):
        if len(self.violations) < 20 and not self._viol_case:
            self._viol_case = True      # first failure of a case; the rest usually follow from it
            self.violations.append(dict(case=self.case, what=what, desc=_short(self.desc), detail=_short(detail)))

    def close(self, got, ref, what, rtol=1e-8, atol=0.0, **detail):
        import numpy as np
        got, ref = np.asarray(got), np.asarray(ref)
        if got.shape != ref.shape:
            return self.check(False, what, **dict(detail, problem="shape", got=list(got.shape), expected=list(ref.shape)))
        with np.errstate(all="ignore"):
            g, r = got.astype(float), ref.astype(float)
            bad = ~((np.abs(g - r) <= atol + rtol * np.abs(r)) | (np.isnan(g) & np.isnan(r)) | (g == r))
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0]) if got.ndim else ()
            return self.check(False, what, **dict(detail, n_bad=int(bad.sum()), of=int(bad.size), first=list(k),
                              got=float(g[k]), expected=float(r[k]), rtol=rtol, atol=float(np.max(atol))))
        return self.check(True, what)

    @contextlib.contextmanager
    def target(self, what):
        """Code under test runs inside; an exception that passes through it on a valid input is a violation."""
        try:
            yield
        except Skip:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            self.check(False, "raises on a valid input: " + what, error=repr(e)[:300],
                       tb=traceback.format_exc()[-1200:])
            raise Skip()

    def expect_raises(self, exc, fn, what, **detail):
        try:
            fn()
        except exc:
            return self.check(True, what)
        except BaseException as e:
            return self.check(False, what, expected=str(exc), got=repr(e)[:200], **detail)
        return self.check(False, what, expected=str(exc), got="accepted", **detail)

    def finding(self, key, reproduced, desc):
        self.findings.append(dict(key=key, reproduced=bool(reproduced), desc=desc, case=self.case))


class Skip(Exception):
    """Abandon the current case (already recorded)."""


def _short(x, depth=0):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.size <= 24:
                return x.tolist()
            return {"shape": list(x.shape), "head": x.ravel()[:8].tolist()}
        if isinstance(x, np.generic):
            return x.item()
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): _short(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [_short(v, depth + 1) for v in list(x)[:24]]
    if isinstance(x, (int, float, bool, str)) or x is None:
        return x if not isinstance(x, str) else x[:1500]
    return repr(x)[:300]


def load(name):
    """Another check's module (for its helpers)."""
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, "checks", name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def set_threads(n):
    import ctypes
    ctypes.CDLL("libgomp.so.1").omp_set_num_threads(int(n))


def shard_main(argv):
    pid, tier, seed, shard, nshards, out, scratch, budget, only = argv
    os.chdir(scratch)
    sys.setrecursionlimit(5000)
    # the code under test prints a lot, from C and from Python
    log = os.open(out + ".log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(log, 2)
    import warnings
    warnings.simplefilter("ignore")
    ctx = Ctx(pid, tier, int(seed), int(shard), int(nshards), None if only == "-" else only, float(budget), out)
    spec = importlib.util.spec_from_file_location("chk_" + pid, os.path.join(VERIF, "checks", pid.lower() + ".py"))
    mod = importlib.util.module_from_spec(spec)
    err = None
    try:
        spec.loader.exec_module(mod)
        mod.run(ctx)
    except Skip:
        pass
    except BaseException:
        err = traceback.format_exc()
    res = dict(events=ctx.events, undecided=ctx.undecided, sigs=sorted(ctx.sigs), samples=ctx.samples,
               violations=ctx.violations, findings=ctx.findings, cases=ctx.cases_run, skipped=ctx.cases_skipped,
               evaluations=ctx.evaluations, error=err)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import harness            # the checks import this module by name: use one set of classes
    harness.shard_main(sys.argv[1:])
