"""Shared driver code: building harnesses from /repo's working tree, running them, judging, evidence."""
import os, sys, json, threading, subprocess, hashlib, time, shutil, tempfile, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = f"{REPO}/libsymmetrix/source"
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
NPROC = os.cpu_count() or 4

FAST = ["-std=c++20", "-O3", "-march=x86-64-v3", "-ffast-math", "-w"]
OPT = ["-std=c++20", "-O2", "-w"]
ASAN = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,bounds,float-cast-overflow",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
INC = [f"-I{VERIF}/stubs/shim/source", f"-I{VERIF}/stubs", f"-I{VERIF}/harness", f"-I{LIB}"]
BLAS = ["-lopenblas"]


class BuildError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            files = sorted(f for f in glob.glob(p + "/**/*", recursive=True) if os.path.isfile(f) and "__pycache__" not in f)
        else:
            files = [p]
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


_dep_hash = None
def dep_hash():
    """Hash of everything an object file may depend on (all sources of /repo, all stubs and harness headers)."""
    global _dep_hash
    if _dep_hash is None:
        _dep_hash = tree_hash([LIB, f"{REPO}/symmetrix/source/cpp", f"{REPO}/pair_symmetrix", f"{VERIF}/stubs"]
                              + glob.glob(f"{VERIF}/harness/*.hpp"))
    return _dep_hash


def compile_obj(src, flags, compiler="g++"):
    os.makedirs(BUILD, exist_ok=True)
    key = hashlib.sha256((dep_hash() + open(src).read() + src + " ".join(flags) + compiler).encode()).hexdigest()[:24]
    obj = f"{BUILD}/{os.path.basename(src)}.{key}.o"
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"   # builds of one check run in parallel and share objects
        r = subprocess.run([compiler, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"compiling {src} failed:\n{r.stderr[-6000:]}")
        os.replace(tmp, obj)
    return obj


def build(name, sources, flags, link=BLAS, inc=INC, shared=False, compiler="g++"):
    """sources: list of path or (path, extra_flags). Returns path of the executable / shared object."""
    t0 = time.time()
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for s in sources:
            extra = []
            if isinstance(s, tuple):
                s, extra = s
            jobs.append(ex.submit(compile_obj, s, [*flags, *inc, *extra], compiler))
        objs = [j.result() for j in jobs]
    key = hashlib.sha256((" ".join(objs) + " ".join(link) + " ".join(flags)).encode()).hexdigest()[:24]
    out = f"{BUILD}/{name}.{key}" + (".so" if shared else "")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp"
        san = [f for f in flags if f.startswith("-fsanitize=") and "thread" not in f]
        r = subprocess.run([compiler, *san, *(["-shared"] if shared else []), *objs, "-o", tmp, *link, "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"linking {name} failed:\n{r.stderr[-6000:]}")
        os.replace(tmp, out)
    return out


def lib_sources(kokkos=False, exclude=()):
    out = []
    for f in sorted(glob.glob(f"{LIB}/*.cpp")):
        b = os.path.basename(f)
        if ("kokkos" in b) == kokkos and b not in exclude:
            out.append(f)
    return out


def core_sources():
    """Serial sources that need neither sphericart nor a model file."""
    return lib_sources(exclude=("mace.cpp", "spherical_harmonic.cpp"))


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.extra, self.samples, self.assumptions = {}, [], []
        self.lock = threading.Lock()
        self.viol = []
        self.known = []
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        kf = f"{VERIF}/known_findings.json"
        self.kf = [e for e in (json.load(open(kf)) if os.path.exists(kf) else [])
                   if e.get("status") == "open" and e["property"] == pid]

    @property
    def thorough(self):
        return self.tier == "thorough"

    # --- results -------------------------------------------------------------------------
    def violation(self, key, desc, replay=None):
        for e in self.kf:
            if e["key"] == key:
                if e not in self.known:
                    self.known.append(e)
                return
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append(dict(key=key, desc=desc, replay=replay))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:600])

    def run(self, exe, args=(), env=None, timeout=None, label=None, cwd=None, count=True):
        """Run a harness; collect VIOL/STATS lines. Abnormal ends are violations (replayed once first)."""
        label = label or os.path.basename(exe).split(".")[0]
        if self.viol:  # already decided: the remaining shards cannot change the verdict
            return None
        if timeout is None:  # no shard of a quick check takes more than a minute on the unchanged tree
            timeout = float(os.environ.get("VERIF_SHARD_TIMEOUT", 0)) or (max(60, min(400, 760 - (time.time() - self.t0))) if not self.thorough else 6 * 3600)
        e = dict(os.environ)
        e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=165",
                 UBSAN_OPTIONS="print_stacktrace=0", VERIF_TIER=self.tier, VERIF_SCRATCH=self.scratch)
        e.update(env or {})
        cmd = [exe, *map(str, args)]
        lim = ["prlimit", "--data=8000000000"] if os.path.basename(exe).split(".")[0] in ("poly", "mlp", "spline", "zblx", "toolsx", "hist", "sph", "macex", "symx") and shutil.which("prlimit") else []  # a runaway loop must not exhaust the machine
        outcome = None
        for attempt in (0, 1):
            try:
                r = subprocess.run(lim + cmd, capture_output=True, text=True, errors="replace", env=e, timeout=timeout, cwd=cwd or self.scratch)
                outcome = (r.returncode, r.stdout, r.stderr)
            except subprocess.TimeoutExpired as x:
                so = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
                outcome = ("timeout", so, "")
            rc, so, se = outcome
            stats = [l for l in so.splitlines() if l.startswith("STATS ")]
            if stats and rc in (0, 1):
                break
            if rc == "timeout":
                break
        viols = [l.split("\t", 2) for l in so.splitlines() if l.startswith("VIOL\t")]
        replay_cmd = " ".join(cmd)
        for v in viols:
            desc = v[2]
            if v[1].startswith("crash"):
                desc += " || " + " ".join(se[-1500:].split())
            self.violation(v[1], f"[{label}] {desc}", replay_cmd)
        if not stats or rc not in (0, 1):
            if not viols:
                tail = " ".join((se or so)[-1500:].split())
                self.violation(f"{'hang' if rc == 'timeout' else 'abort'}:{label}",
                               f"[{label}] harness ended with {rc} before completing the exploration: {tail}", replay_cmd)
            return None
        st = json.loads(stats[-1][6:])
        self.lock.acquire()
        if count:
            self.states += st["states"]; self.transitions += st["transitions"]; self.traces += st["traces"]
        else:  # the same exploration repeated under another build: reported apart
            k = f"{label}.calls_repeated_under_this_build"
            self.extra[k] = self.extra.get(k, 0) + st["transitions"]; st["extra"] = {}; st["samples"] = []
        for k, v in st.get("extra", {}).items():
            self.extra[f"{label}.{k}"] = self.extra.get(f"{label}.{k}", 0) + v
        for s in st.get("samples", [])[:4]:
            self.sample(f"[{label}] {s}")
        self.lock.release()
        return st

    def run_many(self, runs, workers=None):
        """runs: list of dict(exe=..., args=..., ...) executed in parallel processes (independent shards)."""
        with cf.ThreadPoolExecutor(workers or NPROC) as ex:
            return [j.result() for j in [ex.submit(self.run, **r) for r in runs]]

    # --- end -----------------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, exhaustive=not self.viol, **self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        path = f"{VERIF}/evidence/{self.pid}.json"
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for e in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {e['what']}")
        print(f"{self.pid}: states={self.states} transitions={self.transitions} traces={self.traces} wall={ev['wall_s']}s")
        if self.viol:
            rp = f"{VERIF}/evidence/{self.pid}.replay.txt"
            with open(rp, "w") as f:
                for v in self.viol:
                    f.write(f"key: {v['key']}\nwhat: {v['desc']}\nreplay: {v['replay']}\n\n")
            for v in self.viol[:10]:
                print(f"  {v['key']}: {v['desc'][:700]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.exit(1)
        if self.traces == 0 or self.states == 0:
            print("error: nothing was explored")
            sys.exit(2)
        sys.exit(0)


def main(fn, pid):
    c = Check(pid)
    try:
        fn(c)
    except BuildError as e:
        print("BUILD ERROR", e)
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.exit(2)
    c.finish()
