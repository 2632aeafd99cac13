"""Build and run machinery shared by all checks (standard library only)."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
NCPU = max(2, min(8, os.cpu_count() or 2))

CXX = "clang++"


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_mpi_flags = None


def mpi_flags():
    global _mpi_flags
    if _mpi_flags is None:
        c = sh(["mpicxx", "--showme:compile"]).stdout.split()
        l = sh(["mpicxx", "--showme:link"]).stdout.split()
        # the C bindings only
        l = [x for x in l if x != "-lmpi_cxx"]
        _mpi_flags = (c, l)
    return _mpi_flags


SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,null,nonnull-attribute",
             "-fno-sanitize-recover=all", "-DVERIF_SAN_ASAN"],
    "tsan": ["-fsanitize=thread", "-DVERIF_SAN_TSAN"],
    "plain": [],
}


class Variant:
    """One configuration of the library under one sanitizer."""

    def __init__(self, name, san, mpi=False, mpi3=True, threadsafe_mpi=True, tscounter=False,
                 round_robin=True, ndebug=False, nonuma=False, threadsafe=True, pthread=True, dims=4, extra=()):
        self.name = name
        self.san = san
        self.mpi = mpi
        d = ["-DMAX_DIMENSIONS=%d" % dims, "-DOMPI_SKIP_MPICXX"]
        if threadsafe:
            d.append("-DTHREADSAFE")
        if pthread:
            d.append("-DUSE_PTHREAD")
        if round_robin:
            d.append("-DROUND_ROBIN")
        if tscounter:
            d.append("-DTHREADSAFE_COUNTER")
        if not mpi:
            d.append("-DASAGI_NOMPI")
        else:
            if mpi3:
                d.append("-DUSE_MPI3")
        if threadsafe_mpi:
            d.append("-DTHREADSAFE_MPI")
        if nonuma:
            d.append("-DASAGI_NONUMA")
        if ndebug:
            d.append("-DNDEBUG")
        d += list(extra)
        self.defs = d

    def cflags(self, std="-std=c++11"):
        f = [std, "-O0", "-g1", "-fno-omit-frame-pointer", "-w"] + SAN[self.san] + self.defs
        f += ["-I" + REPO, "-I" + REPO + "/include", "-I" + VERIF + "/shim", "-I" + HARNESS]
        if self.mpi:
            f += mpi_flags()[0]
        return f

    def sources(self):
        s = ["asagi.cpp", "asagi_f90.cpp", "grid/grid.cpp", "io/netcdfreader.cpp", "numa/numa.cpp",
             "perf/counter.cpp", "types/structtype.cpp"]
        if self.mpi:
            s += ["mpi/commthread.cpp", "mpi/mpicomm.cpp"]
        # further translation units of the library (kept in step with the CMake lists)
        known = set(s) | {"numa/nonuma.cpp", "mpi/commthread.cpp", "mpi/mpicomm.cpp"}
        for d in [".", "allocator", "cache", "fortran", "grid", "grid/level", "io", "magic", "mpi", "numa", "perf",
                  "threads", "transfer", "types"]:
            p = os.path.join(REPO, d)
            if not os.path.isdir(p):
                continue
            for n in sorted(os.listdir(p)):
                rel = os.path.normpath(os.path.join(d, n))
                if n.endswith(".cpp") and rel not in known:
                    if d == "mpi" and not self.mpi:
                        continue
                    s.append(rel)
        return [x for x in s if os.path.exists(os.path.join(REPO, x))]


# further sources of a harness program (C and Fortran layers)
EXTRA = {"h_api": ["api_c.c", "api_f.f90"]}

SMALL = ["-DASAGI_VERIF_TYPELIST=types::ArrayType<float>,types::StructType<int>,types::BasicType<int>,types::BasicType<double>"]

VARIANTS = {v.name: v for v in [
    Variant("seq-asan", "asan"),
    Variant("seq-tsan", "tsan", tscounter=True, extra=SMALL),
    Variant("seqc-asan", "asan", tscounter=True, extra=SMALL),
    Variant("seqs-asan", "asan", extra=SMALL),
    # the other build options
    Variant("nonuma-asan", "asan", nonuma=True, ndebug=True, extra=SMALL),
    Variant("nothr-asan", "asan", threadsafe=False, threadsafe_mpi=False, dims=1, extra=SMALL),
    Variant("dim8-asan", "asan", ndebug=True, dims=8, extra=SMALL),
    Variant("dbgnuma-asan", "asan", round_robin=False, tscounter=True, dims=3, extra=SMALL + ["-DDEBUG_NUMA"]),
    Variant("mpi2-asan", "asan", mpi=True, mpi3=False, threadsafe_mpi=False, extra=SMALL),
    Variant("blk-asan", "asan", round_robin=False, extra=SMALL),
    Variant("mpi-asan", "asan", mpi=True, extra=SMALL),
    Variant("mpif-asan", "asan", mpi=True),
    Variant("mpith-asan", "asan", mpi=True, threadsafe_mpi=False, extra=SMALL),
    Variant("mpin-asan", "asan", mpi=True, ndebug=True, extra=SMALL),
    Variant("mpithn-asan", "asan", mpi=True, ndebug=True, threadsafe_mpi=False, dims=5, extra=SMALL),
    Variant("mpi-blk-asan", "asan", mpi=True, round_robin=False, extra=SMALL),
    Variant("seq-plain", "plain", tscounter=True, extra=SMALL),
    Variant("mpi-plain", "plain", mpi=True, extra=SMALL),
    Variant("mpith-plain", "plain", mpi=True, threadsafe_mpi=False, extra=SMALL),
    Variant("mpith-tsan", "tsan", mpi=True, threadsafe_mpi=False, tscounter=True, extra=SMALL),
]}


def tree_hash():
    """Content hash of everything a build depends on."""
    h = hashlib.sha256()
    files = []
    for root in (REPO, os.path.join(VERIF, "shim"), HARNESS):
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x not in (".git", "_build", "build", "documentation", "preprocess", "examples"))
            for n in sorted(fn):
                if n.endswith((".h", ".cpp", ".c", ".f90", ".rsp", ".supp")):
                    files.append(os.path.join(dp, n))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


_built_dir = None


def builddir():
    global _built_dir
    if _built_dir is None:
        _built_dir = os.path.join(BUILD, tree_hash())
        os.makedirs(_built_dir, exist_ok=True)
        # forget builds of other trees
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if re.fullmatch(r"[0-9a-f]{16}", n) and p != _built_dir and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        os.utime(_built_dir)
    return _built_dir


def _compile(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        return (cmd, r.stdout)
    os.replace(tmp, out)
    return None


def build(programs):
    """programs: list of (variant name, harness source stem, extra link flags). Returns {(variant, stem): path}."""
    bd = builddir()
    jobs = []
    links = []
    out = {}
    seen = set()
    for spec in programs:
        vn, stem = spec[0], spec[1]
        extra = list(spec[2]) if len(spec) > 2 else []
        v = VARIANTS[vn]
        vd = os.path.join(bd, vn)
        os.makedirs(vd, exist_ok=True)
        objs = []
        for s in v.sources():
            o = os.path.join(vd, s.replace("/", "_") + ".o")
            objs.append(o)
            if o not in seen:
                seen.add(o)
                jobs.append((["grid/grid.cpp" in s and 1 or 2], [CXX] + v.cflags() + ["-c", os.path.join(REPO, s)], o))
        for s in ["hooks", stem]:
            src = os.path.join(HARNESS, s + ".cpp")
            o = os.path.join(vd, "H_" + s + ".o")
            objs.append(o)
            if o not in seen:
                seen.add(o)
                jobs.append(([0], [CXX] + v.cflags("-std=c++17") + ["-c", src], o))
        fortran = []
        for s in EXTRA.get(stem, []):
            src = os.path.join(HARNESS, s)
            o = os.path.join(vd, "H_" + s.replace(".", "_") + ".o")
            objs.append(o)
            if s.endswith(".c"):
                cmd = ["clang", "-std=c11"] + v.cflags()[1:]
            else:
                cmd = ["gfortran", "-O0", "-g1", "-I" + REPO + "/include", "-J" + vd]
                fortran = [sh(["gfortran", "-print-file-name=libgfortran.so"]).stdout.strip()]
            if o not in seen:
                seen.add(o)
                jobs.append(([0], cmd + ["-c", src], o))
        exe = os.path.join(vd, stem)
        out[(vn, stem)] = exe
        lf = SAN[v.san] + ["@" + os.path.join(HARNESS, "wrap.rsp"), "-lnetcdf", "-lnuma", "-lpthread", "-ldl"]
        if v.mpi:
            lf += mpi_flags()[1]
        links.append(([CXX] + SAN[v.san] + objs + lf + fortran + extra, exe))
    jobs.sort(key=lambda j: j[0])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # grid.cpp first: it dominates
        order = sorted(jobs, key=lambda j: 0 if j[2].endswith("grid_grid.cpp.o") else 1)
        errs = [e for e in ex.map(_compile, [(j[1], j[2]) for j in order]) if e]
        if errs:
            raise HarnessError("compilation failed: %s\n%s" % (" ".join(errs[0][0]), errs[0][1][-4000:]))
        errs = [e for e in ex.map(_compile, links) if e]
        if errs:
            raise HarnessError("link failed: %s\n%s" % (" ".join(errs[0][0]), errs[0][1][-4000:]))
    return out


# --------------------------------------------------------------------------
# Running
# --------------------------------------------------------------------------
ASAN_OPTIONS = "abort_on_error=0:exitcode=98:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=1:allocator_release_to_os_interval_ms=-1"
UBSAN_OPTIONS = "print_stacktrace=1:halt_on_error=1:exitcode=98"
TSAN_OPTIONS = "halt_on_error=0:exitcode=98:ignore_noninstrumented_modules=1:history_size=4:report_signal_unsafe=0"


# memcheck: uninitialised memory and, in uninstrumented code as well, invalid accesses
VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=no", "--fair-sched=try", "--num-callers=16", "--leak-check=no", "--max-stackframe=8000000"]


class Job:
    def __init__(self, name, argv, env=None, timeout=120, cpus=1, np=0, retry_timeout=True, san="asan", expect_rc=0):
        self.name = name
        self.argv = argv
        self.env = env or {}
        self.timeout = timeout
        self.cpus = cpus
        self.np = np
        self.san = san


def _descendants(pid):
    """pids of the process group started by us"""
    out = []
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open("/proc/%s/stat" % n) as f:
                    st = f.read()
            except OSError:
                continue
            fields = st[st.rindex(")") + 2:].split()
            if int(fields[2]) == pid or int(fields[3]) == pid:
                out.append((int(n), int(fields[11]) + int(fields[12]), fields[0]))
    return out


def _cpu(pid):
    return sum(x[1] for x in _descendants(pid))


class Result:
    pass


# set once a hang is established: the other jobs end
_stop = threading.Event()


def run_job(job, workdir, idx):
    """Runs one process (or mpirun). Returns a Result with violations and observations."""
    attempts = []
    for attempt in range(2):
        if _stop.is_set():
            break
        r = _run_once(job, workdir, "%d_%d" % (idx, attempt))
        attempts.append(r)
        if not r.hang:
            break
    if not attempts or attempts[-1].stopped:
        r = Result()
        r.job, r.hang, r.error, r.violations, r.reports = job, False, None, [], []
        r.inconclusive = ["not run to the end after a hang of another job: " + job.name]
        return r
    r = attempts[-1]
    if len(attempts) == 2:
        if attempts[0].hang and not r.hang:
            # first attempt hung, second did not: a dead process (no CPU use at all) is a
            # deadlock whatever the second attempt does; otherwise inconclusive
            if attempts[0].blocked and not job.np:
                r.violations.append({"key": "hang:" + job.name.split("#")[0], "detail": "deadlock: all threads blocked without progress"})
            else:
                r.inconclusive.append("timeout once: " + job.name)
        elif r.hang:
            r.violations.append({"key": "hang:" + job.name.split("#")[0], "detail": "no completion within %d s in two attempts (%s)" % (
                job.timeout, "blocked" if r.blocked else "busy")})
    if r.hang or any(v["key"].startswith("hang:") for v in r.violations):
        # hangs are slow to establish: one is enough
        _stop.set()
    return r


def _san_reports(text):
    """Extract (key, excerpt) for every sanitizer report/abort in a log."""
    out = []
    for m in re.finditer(r"(ERROR: AddressSanitizer: ([a-zA-Z-]+)|runtime error: ([^\n]*)|WARNING: ThreadSanitizer: ([a-z A-Z()-]+)|ERROR: LeakSanitizer)", text):
        ex = text[m.start():m.start() + 3500]
        kind = m.group(2) or (m.group(3) and "ub:" + re.sub(r"0x[0-9a-f]+|-?[0-9][0-9.e+]*", "N", m.group(3))[:60]) or m.group(4) or "leak"
        # first frames inside the library
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) %s/([^\s:]+)" % re.escape(REPO), ex) or \
            re.findall(r"#\d+ ([^\n]*?) %s/([^\s:]+)" % re.escape(REPO), ex)
        where = "+".join(sorted(set(f[1] for f in fr[:6]))[:2])
        out.append((("san:" + kind.strip() + "@" + where).replace(" ", "-"), ex[:2500]))
    m = re.search(r"Assertion `([^']*)' failed|Assertion failed: ([^\n]*)", text)
    if m:
        out.append(("assert:" + (m.group(1) or m.group(2))[:80].replace(" ", ""), text[max(0, m.start() - 300):m.end() + 100]))
    for m in re.finditer(r"(?m)^==\d+== ((?:Conditional jump|Use of uninit|Invalid|Mismatched|Syscall param|Source and destination|Argument|Jump to the invalid)[^\n]*)\n((?:==\d+==[^\n]*\n)*)", text):
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^\n(]*)", m.group(2))
        kind = re.sub(r"0x[0-9A-Fa-f]+|\d+", "N", m.group(1))[:50]
        out.append((("memcheck:" + kind + "@" + "+".join(f.strip().split("<")[0] for f in fr[:2])).replace(" ", "-")[:160], m.group(0)[:2500]))
    m = re.search(r"ASAGI-FATAL:([^\n]*)", text)
    if m:
        out.append(("fatal:" + m.group(1)[:60].strip().replace(" ", "_"), m.group(0)))
    return out


def _run_once(job, workdir, tag):
    res = Result()
    res.job = job
    res.hang = False
    res.blocked = False
    res.stopped = False
    res.violations = []
    res.inconclusive = []
    res.reports = []
    wd = os.path.join(workdir, "j%s" % tag)
    os.makedirs(wd, exist_ok=True)
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": ASAN_OPTIONS, "UBSAN_OPTIONS": UBSAN_OPTIONS,
                "TSAN_OPTIONS": TSAN_OPTIONS + ":suppressions=" + os.path.join(HARNESS, "tsan.supp"),
                "VERIF_SCRATCH": wd, "HDF5_USE_FILE_LOCKING": "FALSE", "OMP_NUM_THREADS": "1"})
    env.update(job.env)
    argv = list(job.argv)
    outs = []
    if job.np:
        # large fills: values left over from earlier allocations must not pass for received data
        env["ASAN_OPTIONS"] += ":max_malloc_fill_size=1000000:malloc_fill_byte=3"
        env.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
                    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl_vader_single_copy_mechanism": "cma",
                    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1",
                    "OMPI_MCA_orte_tmpdir_base": wd, "TMPDIR": wd, "OMPI_MCA_hwloc_base_binding_policy": "none",
                    "PMIX_MCA_gds": "hash", "OMPI_MCA_osc": env.get("VERIF_OSC", "^ucx")})
        outs = [os.path.join(wd, "out.%d.json" % i) for i in range(job.np)]
        argv = ["mpirun", "--oversubscribe", "-np", str(job.np)] + argv + ["--out=" + os.path.join(wd, "out")]
    else:
        outs = [os.path.join(wd, "out.json")]
        argv = argv + ["--out=" + outs[0]]
    log = os.path.join(wd, "log")
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(argv, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=wd, start_new_session=True)
        last_cpu, idle_since = -1, time.time()
        while True:
            try:
                p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            # every thread blocked: the CPU time of the whole session does not move at all
            if not job.np:
                c = _cpu(p.pid)
                if c != last_cpu:
                    last_cpu, idle_since = c, now
                if now - idle_since > 20:
                    res.hang = res.blocked = True
                    break
            if now - t0 > job.timeout:
                res.hang = True
                break
            if _stop.is_set():
                res.stopped = True
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        for q in _descendants(p.pid):
            try:
                os.kill(q[0], signal.SIGKILL)
            except OSError:
                pass
        p.wait()
    res.wall = time.time() - t0
    res.rc = p.returncode
    with open(log, "rb") as lf:
        text = lf.read().decode("utf-8", "replace")
    # HDF5 reports failed look-ups of optional attributes in every new thread: noise
    text = re.sub(r"(?m)^(HDF5-DIAG:.*|  #\d+: \S*src/H5.*|    m(aj|in)or: .*)\n", "", text)
    res.log = text
    # the watchdog of the MPI harness: no progress of any rank for 60 s
    if "VERIF-HANG" in text:
        res.hang = res.blocked = True
    if re.search(r"(Thread|Address|Memory|Leak)Sanitizer: CHECK failed", text):
        # the runtime of the sanitizer itself failed: no statement about the library
        res.inconclusive.append("internal error of the sanitizer: " + job.name)
        res.hang = False
        res.rc = 0
        outs = []
    complete = True
    for o in outs:
        try:
            with open(o) as f:
                rep = json.load(f)
            res.reports.append(rep)
            complete = complete and rep["complete"]
            for v in rep["violations"]:
                res.violations.append({"key": v["key"], "detail": v["detail"]})
        except (OSError, ValueError):
            complete = False
    if "HARNESS-ERROR" in text:
        res.error = text[text.index("HARNESS-ERROR"):][:600]
    else:
        res.error = None
    if not res.hang and not res.stopped:
        reps = _san_reports(text)
        for k, ex in reps:
            res.violations.append({"key": k, "detail": ex})
        if res.rc != 0 and not reps and not res.violations and not res.error:
            res.violations.append({"key": "crash:%s:rc%s" % (job.name.split("#")[0], res.rc),
                                   "detail": "process ended with status %s\n%s" % (res.rc, text[-1500:])})
        elif res.rc == 0 and not complete and not res.error:
            res.violations.append({"key": "no-report:" + job.name.split("#")[0], "detail": "process ended early\n" + text[-1500:]})
    shutil.rmtree(wd, ignore_errors=True)
    return res


def run_jobs(jobs, parallel=NCPU):
    """Runs jobs with a budget of CPU slots; returns results in order."""
    os.makedirs(BUILD, exist_ok=True)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    workdir = tempfile.mkdtemp(prefix="asagi-verif-", dir=base)
    results = [None] * len(jobs)
    cond = threading.Condition()
    free = [parallel]

    def work(i):
        j = jobs[i]
        need = min(j.cpus, parallel)
        with cond:
            while free[0] < need:
                cond.wait()
            free[0] -= need
        try:
            results[i] = run_job(j, workdir, i)
        finally:
            with cond:
                free[0] += need
                cond.notify_all()
    try:
        with cf.ThreadPoolExecutor(max(2, parallel)) as ex:
            list(ex.map(work, range(len(jobs))))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    return results
