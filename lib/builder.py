"""Builds /repo's current working tree into a private directory (never inside /repo).

Variants:
  plain  -O2 with OpenMP: what a user runs
  asan   -O1 -fsanitize=address,undefined (ASan+UBSan), and with Cython's own index checks on even where
         the code turns them off: an index past the end of a row is then seen even if it stays inside the array
  tsan   -O1 -fsanitize=thread, with lib/gomp_shim.c in place of libgomp
The directory is keyed by the content of every source file, so a changed tree is always rebuilt.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.environ.get("VERIF_BUILD_ROOT", os.path.join(VERIF, ".build"))
SRC_EXT = (".py", ".pyx", ".pxd", ".pxi")

# Modules that carry the numerical kernels; the others only dispatch and are compiled at -O0.
KERNELS = ("_algos.pyx", "helper_class.pyx", "gen_catalogues.pyx")
FLAGS = {
    "plain": ["-O1", "-g0", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr", "-fsanitize=bounds,float-cast-overflow"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
FLAGS_DISPATCH = ["-O0", "-g0", "-DNDEBUG"]
LDFLAGS = {"plain": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}
SHIM = os.path.join(VERIF, "lib", "gomp_shim.c")
PROBE = os.path.join(VERIF, "lib", "lapack_probe.c")


def sources(repo=REPO):
    out = []
    base = os.path.join(repo, "cosmic_profiles")
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ("for_docs", "tests", "__pycache__", "build"))
        for f in sorted(files):
            if f.endswith(SRC_EXT):
                p = os.path.join(root, f)
                out.append(os.path.relpath(p, repo))
    return out


def tree_hash(repo=REPO, variant="plain"):
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], FLAGS_DISPATCH, LDFLAGS[variant], sys.version, 2)).encode())
    for c in (SHIM, PROBE) if variant != "plain" else ():
        h.update(open(c, "rb").read())
    for s in sources(repo):
        with open(os.path.join(repo, s), "rb") as f:
            h.update(s.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(variant="plain", repo=REPO):
    """Returns (directory to put on sys.path, seconds spent)."""
    t0 = time.time()
    key = "%s-%s" % (variant, tree_hash(repo, variant))
    os.makedirs(BUILD_ROOT, exist_ok=True)
    dest = os.path.join(BUILD_ROOT, key)
    with open(os.path.join(BUILD_ROOT, ".lock-" + key), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".done")):
            os.utime(dest)
            return dest, time.time() - t0
        if os.path.exists(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        unchecked = []
        for s in sources(repo):
            d = os.path.join(dest, s)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(repo, s), d)
            if variant == "asan":
                src = open(d, encoding="utf-8").read()
                new = re.sub(r"(\bboundscheck\s*[(=]\s*)False\b", r"\1True", src)
                if new != src:
                    open(d, "w", encoding="utf-8").write(new)
                    unchecked.append(os.path.basename(s))
        with open(os.path.join(dest, "unchecked.txt"), "w") as f:
            f.write("\n".join(unchecked) + "\n")
        import numpy as np
        env = dict(os.environ)
        env.pop("CFLAGS", None)
        cc = shutil.which("gcc", path="/usr/bin") or "gcc"
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(), "-I."]
        common = ["-pthread", "-fPIC", "-fopenmp", "-w"]
        if variant != "asan":
            common += ["-fno-strict-overflow", "-fwrapv"]

        omp = ["-fopenmp"]
        if variant != "plain":
            _run([cc, "-fPIC", "-shared", "-pthread"] + FLAGS[variant] + [PROBE, "-o", "libprobe.so"], dest, env)
        if variant == "tsan":       # linked against the stand-in instead of libgomp
            _run([cc, "-O2", "-g1", "-fPIC", "-shared", "-pthread", SHIM, "-o", "libgompshim.so"], dest, env)
            omp = ["-Wl,--no-as-needed", "-L" + dest, "-lgompshim", "-Wl,-rpath," + dest]

        def one(pyx):
            stem = pyx[:-4]
            _run([sys.executable, "-m", "cython", "-3", pyx, "-o", stem + ".c"], dest, env)
            kernel = pyx.endswith(KERNELS)
            _run([cc] + common + (FLAGS[variant] if kernel else FLAGS_DISPATCH) + inc + ["-c", stem + ".c", "-o", stem + ".o"], dest, env)
            _run([cc, "-shared", "-pthread"] + (LDFLAGS[variant] if kernel else []) + [stem + ".o", "-o", stem + ".so"] + omp, dest, env)
            os.unlink(os.path.join(dest, stem + ".o"))

        pyxs = [s for s in sources(repo) if s.endswith(".pyx")]
        pyxs.sort(key=lambda s: -os.path.getsize(os.path.join(repo, s)))
        with ThreadPoolExecutor(len(pyxs)) as ex:
            for fut in [ex.submit(one, p) for p in pyxs]:
                fut.result()
        open(os.path.join(dest, ".done"), "w").close()
    _prune(keep=dest)
    return dest, time.time() - t0


def probes(bdir, variant="plain"):
    """Compiles lib/probes/*.pyx, which call the kernels that only Cython code can reach. One that does not compile
    against this tree (a kernel may have been given another signature) is left out. Returns the directory."""
    src = sorted(glob.glob(os.path.join(VERIF, "lib", "probes", "*.pyx")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:12]
    dest = os.path.join(bdir, "vprobes-" + h)
    with open(bdir + ".probe-lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".done")):
            return dest
        os.makedirs(dest, exist_ok=True)
        import numpy as np
        env = dict(os.environ)
        env.pop("CFLAGS", None)
        cc = shutil.which("gcc", path="/usr/bin") or "gcc"

        def one(s):
            stem = os.path.join(dest, os.path.basename(s)[:-4])
            shutil.copy2(s, stem + ".pyx")
            try:
                _run([sys.executable, "-m", "cython", "-3", "-I", ".", stem + ".pyx", "-o", stem + ".c"], bdir, env)
                _run([cc, "-pthread", "-fPIC", "-fopenmp", "-w", "-O1", "-DNDEBUG", "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
                      "-shared", stem + ".c", "-o", stem + ".so"], bdir, env)
            except BuildError as e:
                open(stem + ".failed", "w").write(str(e))

        with ThreadPoolExecutor(len(src)) as ex:
            list(ex.map(one, src))
        open(os.path.join(dest, ".done"), "w").close()
    return dest


def _prune(keep, limit=6):
    ds = [d for d in glob.glob(os.path.join(BUILD_ROOT, "*-*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-limit]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)
            lk = os.path.join(BUILD_ROOT, ".lock-" + os.path.basename(d))
            if os.path.exists(lk):
                os.unlink(lk)


if __name__ == "__main__":
    v = sys.argv[1] if len(sys.argv) > 1 else "plain"
    print(*build(v))
