"""check.py PID TIER [--replay FILE]: build, run the shards of one property, decide, write evidence."""
import collections, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import builder  # noqa: E402
from registry import REG  # noqa: E402


def load_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                out[(f["property"], f["key"])] = line.split(None, 3)[3].strip()
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only, replay = None, None
    if len(sys.argv) > 4 and sys.argv[3] == "--replay":
        replay = json.load(open(sys.argv[4]))
        only, seed, tier = replay["case"], replay["seed"], replay["tier"]
    reg = REG[pid]
    t0 = time.time()
    variant = reg.get("variant", "plain")
    try:
        bdir, bsec = builder.build(variant)
        extra = {}
        if reg.get("also"):
            extra["VERIF_ALSO"] = builder.build(reg["also"])[0]
        if reg.get("probes"):
            extra["VERIF_PROBES"] = builder.probes(bdir, variant)
    except builder.BuildError as e:
        print("inconclusive: the tree does not build:\n" + str(e)[-3000:])
        return 2
    nshards = 1 if only else reg.get("shards", 8)
    budget = float(os.environ.get("VERIF_BUDGET", reg.get("budget", {}).get(tier, 500 if tier == "quick" else 2400)))
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
    procs = []
    try:
        for i in range(nshards):
            sc = os.path.join(work, "s%d" % i)
            os.makedirs(sc)
            out = os.path.join(work, "r%d.json" % i)
            env = dict(os.environ)
            env.update(PYTHONPATH=bdir + ":" + os.path.join(VERIF, "lib"), MPLBACKEND="Agg", PYTHONHASHSEED="0",
                       OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive", PYTHONDONTWRITEBYTECODE="1",
                       OMP_NUM_THREADS=str(reg.get("threads", [2, 1, 3, 4])[i % len(reg.get("threads", [2, 1, 3, 4]))]),
                       MPLCONFIGDIR=os.path.join(work, "mpl"), TMPDIR=sc, HOME=sc, VERIF_BDIR=bdir,
                       OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", **extra)
            env.update(reg.get("env", {}))
            if variant == "asan":
                libs = [subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip()
                        for l in ("libasan.so", "libubsan.so")]
                env["LD_PRELOAD"] = ":".join(libs)
                env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:log_path=%s.san:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:max_malloc_fill_size=67108864:malloc_fill_byte=%d" % (out, (255, 65, 127)[i % 3])
                env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s.san" % out
            cmd = []
            if variant == "tsan":
                env["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip()
                env["TSAN_OPTIONS"] = "log_path=%s.san:exitcode=0:halt_on_error=0:history_size=4:second_deadlock_stack=1" % out
                if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
                    cmd = ["setarch", "-R"]
            p = subprocess.Popen(cmd + [sys.executable, os.path.join(VERIF, "lib", "harness.py"), pid, tier, str(seed), str(i),
                                  str(nshards), out, sc, str(budget), only or "-"], env=env, cwd=sc,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            procs.append((i, p, out))
        deadline = time.time() + budget + reg.get("grace", 200)
        stall = reg.get("stall", 200.0 if tier == "quick" else 600.0)
        ev, und, sigs, samples, viols, finds, errs = collections.Counter(), collections.Counter(), set(), [], [], [], []
        cases = skipped = evals = 0
        for i, p, out in procs:
            rc = _watch(p, out, deadline, stall)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            san = [f for f in sorted(os.listdir(work)) if f.startswith(os.path.basename(out) + ".san")]
            for f in san:
                txt = open(os.path.join(work, f), errors="replace").read()
                if reg.get("san_violation", True) and ("runtime error" in txt or "ERROR: AddressSanitizer" in txt):
                    j = _journal(out)
                    viols.append(dict(case=j.get("case"), what="sanitizer report", desc=j.get("desc"),
                                      detail={"report": txt[:4000]}))
            if os.path.exists(out):
                r = json.load(open(out))
                ev.update(r["events"]); und.update(r["undecided"]); sigs.update(r["sigs"])
                samples += r["samples"]; viols += r["violations"]; finds += r["findings"]
                cases += r["cases"]; skipped += r["skipped"]; evals += r["evaluations"]
                if r["error"]:
                    errs.append("shard %d: %s" % (i, r["error"]))
            else:
                j = _journal(out)
                if isinstance(rc, int) and rc < 0 and j.get("case") is not None and -rc not in (signal.SIGKILL, signal.SIGTERM):
                    viols.append(dict(case=j["case"], what="process died with signal %d in the code under test" % -rc,
                                      desc=j.get("desc"), detail={"log": _tail(out + ".log")}))
                elif rc == 77 and san:
                    pass
                elif rc == "stalled":
                    viols.append(dict(case=j.get("case"), what="does not finish: nothing happened for %.0f s while this case was running" % stall,
                                      desc=j.get("desc"), detail={"log": _tail(out + ".log")}))
                elif rc is None:
                    errs.append("shard %d: no result within %.0f s (case %s)" % (i, budget, j.get("case")))
                else:
                    errs.append("shard %d: exit %s, case %s, log: %s" % (i, rc, j.get("case"), _tail(out + ".log")))
        known = load_findings()
        for f in finds:
            if f["reproduced"]:
                if (pid, f["key"]) in known:
                    print("KNOWN-FINDING: property=%s %s [%s]" % (pid, f["desc"], f["key"]))
                else:
                    viols.append(dict(case=f["case"], what=f["desc"], desc=None, detail={"finding": f["key"]}))
        missing = [k for k in reg.get("need", []) if ev[k] == 0] if not only else []
        wall = time.time() - t0
        sel = []
        for s in samples:
            if len(sel) < 6:
                sel.append(s)
        if not only:
            evidence = dict(property=pid, tier=tier, seed=seed, level="exploration",
                            coverage=dict(evaluations=int(evals), distinct_nontrivial=len(sigs), rule=reg["rule"],
                                          samples=sel or ["none"],
                                          detail=dict(cases=cases, cases_skipped_for_time=skipped, shards=nshards,
                                                      events=dict(ev), undecided=dict(und), build_s=round(bsec, 1))),
                            wall_s=round(wall, 2), violations=len(viols), assumptions=reg.get("assumptions", []))
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(evidence, f, indent=1, sort_keys=True)
                f.write("\n")
        for e in errs:
            print("error: " + e[-3000:])
        if viols:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for k, v in enumerate(viols[:5]):
                rp = os.path.join(VERIF, "replays", "%s-seed%d-%d.json" % (pid, seed, k))
                if replay is None:
                    with open(rp, "w") as f:
                        json.dump(dict(property=pid, tier=tier, seed=seed, case=v["case"], what=v["what"], desc=v["desc"],
                                       detail=v["detail"], rerun="./check.sh %s %s --replay %s" % (pid, tier, rp)), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  case %s: %s" % (v["case"], v["what"]))
                print("  %s" % json.dumps(v["detail"])[:1500])
            return 1
        if errs:
            return 2
        if evals == 0 or missing:
            print("inconclusive: monitors observed nothing%s" % (": " + ", ".join(missing) if missing else ""))
            return 3
        print("%s %s held: %d evaluations over %d cases, %d distinct behaviours, %d undecided, %d cases skipped for time, %.1f s (build %.1f)"
              % (pid, tier, evals, cases, len(sigs), sum(und.values()), skipped, wall, bsec))
        return 0
    finally:
        for _, p, _o in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)


def _watch(p, out, deadline, stall):
    """Exit code, None at the deadline, "stalled" if one case runs on and on (the code under test does not return)."""
    while True:
        try:
            return p.wait(1.0)
        except subprocess.TimeoutExpired:
            pass
        if time.time() > deadline:
            return None
        try:
            if _journal(out).get("case") is not None and time.time() - os.path.getmtime(out + ".journal") > stall:
                return "stalled"
        except OSError:
            pass


def _journal(out):
    try:
        return json.load(open(out + ".journal"))
    except Exception:
        return {}


def _tail(p, n=1500):
    try:
        return open(p, errors="replace").read()[-n:]
    except OSError:
        return ""


if __name__ == "__main__":
    sys.exit(main())
