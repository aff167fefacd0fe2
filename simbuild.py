"""Builds check executables from /repo's working tree plus /verif's simulator.

Content-addressed: an object is reused only if the compile command and the content of every file it
read (compiler depfile) are unchanged, so a change of the working tree is always seen.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
JOBS = int(os.environ.get("SIM_JOBS", os.cpu_count() or 8))

CLANG = "clang++"
GXX = "g++"
LD = ["-fuse-ld=gold"] if os.path.exists("/usr/bin/ld.gold") else []

_sha_cache = {}
_lock = threading.Lock()


def sha_file(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size)
    with _lock:
        if key in _sha_cache:
            return _sha_cache[key]
    with open(path, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    with _lock:
        _sha_cache[key] = h
    return h


def sha_text(s):
    return hashlib.sha256(s.encode()).hexdigest()


DEFS_COMMON = [
    "-DKAMINPAR_ENABLE_TIMERS", "-DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING",
    "-DKAMINPAR_COMPRESSION_INTERVAL_ENCODING", "-DKAMINPAR_SPARSEHASH_FOUND",
    "-DKAMINPAR_USES_GROWT", "-DKASSERT_ASSERTION_LEVEL=0", "-DNDEBUG",
]
# Code under test: every memory access and atomic operation calls into the simulator
# (-fsanitize=thread with our runtime), thread_local storage goes through the simulator.
INSTR = ["-fsanitize=thread", "-femulated-tls", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
if os.environ.get("SIM_COV"):  # tools/coverage only
    INSTR += ["-fsanitize-coverage=bb,trace-pc"]


def repo_flags(variant):
    f = ["-std=c++20", "-O1", "-g1", "-ffunction-sections", "-fdata-sections", "-msse4.1", "-mcx16", "-w", *INSTR, *DEFS_COMMON,
         "-I" + os.path.join(SIM, "include"), "-I" + SIM, "-I" + REPO,
         "-I" + os.path.join(BUILD, "gen"),
         "-isystem", os.path.join(REPO, "external", "growt")]
    for v in variant:
        f.append(v)
    return f


def source_flags(src):
    """Programs are called by the check: their main() gets a name of its own."""
    rel = os.path.relpath(src, REPO)
    if rel == "apps/KaMinPar.cc" or rel.startswith("apps/tools/"):
        return ["-Dmain=sim_main_" + os.path.basename(src)[:-3]]
    return []


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def parse_dep(path):
    with open(path) as f:
        s = f.read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [x for x in s.split() if x]


def compile_one(src, flags, compiler, objdir):
    os.makedirs(objdir, exist_ok=True)
    rel = os.path.relpath(src, "/").replace("/", "_")
    cmd = [compiler, *flags]
    ident = sha_text(" ".join(cmd) + "|" + src)[:16]
    obj = os.path.join(objdir, f"{rel}.{ident}.o")
    meta = obj + ".json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(sha_file(p) == h for p, h in m["deps"].items()):
            return obj, False
    except (OSError, ValueError, KeyError):
        pass
    dep = obj + ".d"
    tmp = obj + f".tmp{os.getpid()}_{threading.get_ident()}"
    rc, out = _run([*cmd, "-MD", "-MF", dep, "-c", src, "-o", tmp])
    if rc != 0:
        raise BuildError(f"compiling {src} failed:\n{out[-6000:]}")
    os.replace(tmp, obj)
    deps = {p: sha_file(p) for p in parse_dep(dep) if not p.startswith("/usr/")}
    with open(meta + ".tmp", "w") as f:
        json.dump({"deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    os.unlink(dep)
    return obj, True


def compile_all(jobs):
    """jobs: list of (src, flags, compiler, objdir). Returns objects in order."""
    # long ones first
    order = sorted(range(len(jobs)), key=lambda i: -_cost(jobs[i][0]))
    res = [None] * len(jobs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *jobs[i]): i for i in order}
        err = None
        for fu in cf.as_completed(futs):
            try:
                res[futs[fu]] = fu.result()
            except BuildError as e:
                err = err or e
                for x in futs:
                    x.cancel()
            except cf.CancelledError:
                pass
        if err is not None:
            raise err
    return res


def _cost(src):
    heavy = ("lp_clusterer", "lp_refiner", "contraction", "clp_refiner", "balancer", "fm_refiner",
             "global_lp", "jet", "hem", "replicator", "subgraph")
    return os.path.getsize(src) + (100000 if any(h in src for h in heavy) else 0)


def gen_files():
    """Configured headers / sources (environment.cc)."""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "kaminpar-common", "environment.cc.in")
    if os.path.exists(src):
        with open(src) as f:
            s = f.read()
        import re
        s = re.sub(r"@[A-Za-z0-9_]+@", "sim", s)
        s = re.sub(r"\$\{[A-Za-z0-9_]+\}", "sim", s)
        dst = os.path.join(gen, "environment.cc")
        old = None
        if os.path.exists(dst):
            with open(dst) as f:
                old = f.read()
        if old != s:
            with open(dst, "w") as f:
                f.write(s)
    return gen


def sources(lib):
    g = lambda p: sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    if lib == "common":
        s = g("kaminpar-common/**/*.cc")
        s = [x for x in s if not x.endswith("libc_memory_override.cc")]
        return s + [os.path.join(BUILD, "gen", "environment.cc")]
    if lib == "shm":
        return g("kaminpar-shm/**/*.cc")
    if lib == "mpi":
        return g("kaminpar-mpi/**/*.cc")
    if lib == "dist":
        return g("kaminpar-dist/**/*.cc")
    if lib == "shmio":
        return [x for x in g("apps/io/shm_*.cc")]
    if lib == "distio":
        return [x for x in g("apps/io/dist_*.cc") if "skagen" not in x]
    if lib == "cli":
        return [x for x in g("kaminpar-cli/**/*.cc") if "/dkaminpar" not in x]
    if lib == "apps":
        return g("apps/KaMinPar.cc") + g("apps/tools/*.cc") + g("apps/version.cc")
    raise ValueError(lib)


SIM_SOURCES = ["core.cc", "tsan_rt.cc", "heap.cc", "libc_rt.cc", "tbb_rt.cc", "driver.cc", "fs_rt.cc",
               "atomic16.c"]


def sim_jobs(extra=()):
    objdir = os.path.join(BUILD, "obj-sim")
    flags = ["-O2", "-g1", "-mcx16", "-fno-stack-protector", "-w", "-I" + os.path.join(SIM, "include"),
             "-I" + SIM]
    jobs = []
    for s in [*SIM_SOURCES, *extra]:
        p = os.path.join(SIM, s)
        if not os.path.exists(p):
            continue
        if s.endswith(".c"):
            jobs.append((p, flags, "gcc", objdir))
        else:
            jobs.append((p, ["-std=c++20", *flags], GXX, objdir))
    return jobs


def build_shm_check(name, libs, variant=(), only=None, verbose=True):
    """Statically linked single-process check. `only`: substrings of the repo sources that suffice
    (a shortcut; on an unresolved symbol everything is compiled)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_files()
        flags = [*repo_flags(variant), "-fno-pie"]
        tag = sha_text(" ".join(flags))[:8]
        objdir = os.path.join(BUILD, "obj-" + tag)
        checks = [os.path.join(VERIF, "checks", name + ".cc")]

        def attempt(subset):
            repo_src = []
            for l in libs:
                for s in sources(l):
                    if subset is None or any(x in s for x in subset):
                        repo_src.append(s)
            jobs = sim_jobs()
            nsim = len(jobs)
            jobs += [(s, [*flags, *source_flags(s)], CLANG, objdir) for s in checks + repo_src]
            res = compile_all(jobs)
            objs = [r[0] for r in res]
            exe = os.path.join(BUILD, name + ".exe")
            key = sha_text(json.dumps([[o, sha_file(o)] for o in objs]))
            try:
                with open(exe + ".key") as f:
                    if f.read() == key and os.path.exists(exe):
                        return exe
            except OSError:
                pass
            tmp = exe + ".tmp"
            rc, out = _run([GXX, "-no-pie", "-Wl,--gc-sections", "-o", tmp, *objs, "-ldl", *LD])
            if rc != 0:
                raise BuildError("link failed:\n" + out[-6000:])
            os.replace(tmp, exe)
            with open(exe + ".key", "w") as f:
                f.write(key)
            return exe

        if only is not None:
            try:
                exe = attempt(only)
            except BuildError as e:
                if "undefined" not in str(e):
                    raise
                und = sorted(set(re.findall(r"undefined reference to [`'](.*?)'", str(e))))
                print(f"note: {name}: subset of sources does not link, compiling everything "
                      f"(missing: {und[:6]})", flush=True)
                exe = attempt(None)
        else:
            exe = attempt(None)
    if verbose:
        print(f"build {name}: {time.time() - t0:.1f} s", flush=True)
    return exe


def build_dist_check(name, libs, variant=(), only=None, verbose=True):
    """Distributed check: the check and the code under test in one shared object; the driver (a
    dynamically linked executable) loads one copy per simulated process."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_files()
        flags = [*repo_flags(variant), "-fPIC", "-DKAMINPAR_64BIT_WEIGHTS",
                 "-I" + os.path.join(SIM, "mpiinclude")]
        tag = sha_text(" ".join(flags))[:8]
        objdir = os.path.join(BUILD, "obj-" + tag)
        check = os.path.join(VERIF, "checks", name + ".cc")

        def link(out, cmd, objs):
            key = sha_text(json.dumps([cmd, [[o, sha_file(o)] for o in objs]]))
            try:
                with open(out + ".key") as f:
                    if f.read() == key and os.path.exists(out):
                        return
            except OSError:
                pass
            tmp = out + ".tmp"
            rc, txt = _run([*cmd, "-o", tmp, *objs, "-ldl", *LD])
            if rc != 0:
                raise BuildError("link failed:\n" + txt[-6000:])
            os.replace(tmp, out)
            with open(out + ".key", "w") as f:
                f.write(key)

        def attempt(subset):
            src = [s for l in libs for s in sources(l) if subset is None or any(x in s for x in subset)]
            jobs = sim_jobs(["mpi_rt.cc", "mpi_main.cc"])
            nsim = len(jobs)
            jobs += [(s, flags, CLANG, objdir) for s in [check, *src]]
            res = compile_all(jobs)
            objs = [r[0] for r in res]
            exe = os.path.join(BUILD, name + ".exe")
            link(exe, [GXX, "-no-pie", "-rdynamic"], objs[:nsim])
            # everything that is left undefined must come from the driver or from system libraries
            ver = os.path.join(BUILD, "exports.txt")
            if not os.path.exists(ver):
                with open(ver, "w") as f:
                    f.write("{ global: dist_*; local: *; };\n")
            link(os.path.join(BUILD, name + ".full.so"),
                 [GXX, "-shared", "-Wl,-Bsymbolic", "-Wl,--gc-sections", "-Wl,-z,now", "-Wl,--version-script=" + ver],
                 objs[nsim:])
            full, so = os.path.join(BUILD, name + ".full.so"), os.path.join(BUILD, name + ".so")
            rc, txt = _run(["strip", "--strip-unneeded", "-o", so + ".tmp", full])
            if rc != 0:
                raise BuildError("strip failed:\n" + txt)
            os.replace(so + ".tmp", so)
            rc, txt = _run([exe, "list"])  # loads the copies: undefined symbols show up here
            if rc != 2:
                raise BuildError("loading failed: undefined\n" + txt[-3000:])
            return exe

        try:
            exe = attempt(only)
        except BuildError as e:
            if only is None or "undefined" not in str(e):
                raise
            print(f"note: {name}: subset of sources does not load, compiling everything ({str(e)[-300:]})", flush=True)
            exe = attempt(None)
    if verbose:
        print(f"build {name}: {time.time() - t0:.1f} s", flush=True)
    return exe


if __name__ == "__main__":
    try:
        b = build_dist_check if sys.argv[1].startswith("dist_") else build_shm_check
        print(b(sys.argv[1], sys.argv[2].split(",") if sys.argv[2] else []))
    except BuildError as e:
        print(e)
        sys.exit(2)
