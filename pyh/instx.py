"""C28: installing the pair styles into a LAMMPS tree.  usage: instx.py SHARD NSHARDS SCRATCH REPO
Every history of runs (complete, refused, cut between any two commands) up to a depth, then a complete run, from every working
directory, spelling of the script and spelling of the tree; judged by the files in the tree and by a real CMake configure and build."""
import sys, os, itertools, shutil, subprocess
import ph
shard, nsh, scratch, repo = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
root = f"{scratch}/inst{shard}"; os.makedirs(root)
FILES = [("pair_symmetrix_mace.h", "src"), ("pair_symmetrix_mace.cpp", "src"), ("pair_symmetrix_mace_kokkos.h", "src/KOKKOS"), ("pair_symmetrix_mace_kokkos.cpp", "src/KOKKOS")]
CM = """cmake_minimum_required(VERSION 3.20)
project(lmp C)
file(GLOB SRC ${CMAKE_CURRENT_SOURCE_DIR}/../src/*.c)
add_library(lammps %s ${SRC})
add_executable(lmp ../tools/main.c)
target_link_libraries(lmp PRIVATE lammps)
include(GNUInstallDirs)
install(TARGETS lammps EXPORT LAMMPS_Targets LIBRARY DESTINATION lib ARCHIVE DESTINATION lib)
install(EXPORT LAMMPS_Targets FILE LAMMPS_Targets.cmake NAMESPACE LAMMPS:: DESTINATION lib/cmake)
# last line of the original file%s"""
def w(p, s, m=None):
    os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(s)
    if m: os.chmod(p, m)
# cuts the script before its K-th command; VERIF_CUT=0 only counts
w(root + "/cut.sh", """set -T
__n=0
trap '__n=$((__n+1)); if [ "$BASH_SUBSHELL" = 0 ] && [ "$__n" -gt "${VERIF_CUT}" ]; then unset BASH_ENV; kill -KILL $$; fi' DEBUG
""")
def world(co, lm, kind, nl):
    shutil.rmtree(root + "/w", ignore_errors=True); W = root + "/w"; C, L = f"{W}/{co}", f"{W}/{lm}"
    os.makedirs(C + "/pair_symmetrix")
    for f in [f for f, _ in FILES] + ["install.sh"]: shutil.copy(f"{repo}/pair_symmetrix/{f}", f"{C}/pair_symmetrix/{f}")
    os.chmod(C + "/pair_symmetrix/install.sh", 0o755)
    w(C + "/libsymmetrix/CMakeLists.txt", "add_library(symmetrix STATIC source/s.c)\nset_target_properties(symmetrix PROPERTIES POSITION_INDEPENDENT_CODE ON)\n")
    w(C + "/libsymmetrix/source/s.c", "int symmetrix_probe(void) { return 42; }\n"); w(C + "/libsymmetrix/source/probe.h", "int symmetrix_probe(void);\n")
    w(L + "/src/a.c", '#include "probe.h"\nint lammps_probe(void) { return symmetrix_probe(); }\n'); w(L + "/tools/main.c", "int lammps_probe(void); int main(void) { return lammps_probe() == 42 ? 0 : 1; }\n")
    w(L + "/src/KOKKOS/other.h", "other\n"); w(L + "/src/pair_other.cpp", "other\n"); w(L + "/cmake/CMakeLists.txt", CM % (kind, nl)); os.makedirs(W + "/elsewhere/deep"); os.symlink(lm, W + "/link"); os.symlink(co + "/pair_symmetrix", W + "/colink")
    return W, C, L
def run(C, args, cwd, how, cut=None):
    s = {"abs": C + "/pair_symmetrix/install.sh", "rel": os.path.relpath(C + "/pair_symmetrix/install.sh", cwd), "link": os.path.dirname(C) + "/colink/install.sh"}[how.replace("bash-", "")]
    if how.endswith("rel") and "/" not in s: s = "./" + s
    argv = (["bash"] if how.startswith("bash-") else []) + [s] + args; e = {k: v for k, v in os.environ.items() if k != "CDPATH"}
    if cut is not None: e.update(BASH_ENV=root + "/cut.sh", VERIF_CUT=str(cut))
    e.pop("OLDPWD", None); ph.transitions += 1
    return subprocess.run(argv, cwd=cwd, env=e, capture_output=True, text=True, timeout=60)
def snapshot(L):
    return {os.path.relpath(os.path.join(d, f), L): (os.readlink(os.path.join(d, f)) if os.path.islink(os.path.join(d, f)) else open(os.path.join(d, f)).read()) for d, _, fs in os.walk(L) for f in fs}
memo = {}
def judge(name, W, C, L, orig, others):
    for f, d in FILES:
        p = f"{L}/{d}/{f}"
        try: ok = open(p).read() == open(f"{C}/pair_symmetrix/{f}").read()
        except OSError as x: ok = False
        if not ok: ph.viol("install:source", f"{name}: {d}/{f} in the LAMMPS tree is not the checkout's"); return
        if os.path.isdir(p): ph.viol("install:source", f"{name}: {d}/{f} is a directory"); return
    cm = open(L + "/cmake/CMakeLists.txt").read()
    if not cm.startswith(orig): ph.viol("install:cmake-content", f"{name}: the original build instructions were altered"); return
    for k, v in others.items():
        if k not in snapshot_now or snapshot_now[k] != v: ph.viol("install:other-files", f"{name}: {k} of the LAMMPS tree was changed"); return
    key = cm.replace(root, "@")
    if key not in memo:
        b = W + "/build"; shutil.rmtree(b, ignore_errors=True); r = None
        for c in (["cmake", "-S", L + "/cmake", "-B", b, "-DCMAKE_INSTALL_PREFIX=" + W + "/pre"], ["cmake", "--build", b], [b + "/lmp"], ["cmake", "--install", b]):
            r = subprocess.run(c, capture_output=True, text=True, timeout=120)
            if r.returncode: break
        memo[key] = None if r.returncode == 0 else f"'{' '.join(c[:2])}' ended with {r.returncode}: {' '.join((r.stderr or r.stdout)[-400:].split())}"
        shutil.rmtree(b, ignore_errors=True); ph.extra["cmake_builds"] = ph.extra.get("cmake_builds", 0) + 1
    if memo[key]: ph.viol("install:build", f"{name}: LAMMPS no longer builds: {memo[key]}")
snapshot_now = {}
WORLDS = [("co", "lammps"), ("check out", "lammps"), ("co", "lam mps"), ("check out", "lam mps")]
CWD = {"pair": lambda W, C, L: C + "/pair_symmetrix", "co": lambda W, C, L: C, "lammps": lambda W, C, L: L, "deep": lambda W, C, L: W + "/elsewhere/deep"}
HOW = ["rel", "abs", "bash-rel", "bash-abs", "link"]
LP = {"abs": lambda W, L, d: L, "abs/": lambda W, L, d: L + "/", "rel": lambda W, L, d: os.path.relpath(L, d), "rel/": lambda W, L, d: os.path.relpath(L, d) + "/", "link": lambda W, L, d: W + "/link", "dots": lambda W, L, d: L + "/src/.."}
def ncuts(C, L, args, cwd, how):
    k = 0
    while True:
        r = run(C, args, cwd, how, k)
        if r.returncode >= 0: return k
        k += 1
        if k > 200: raise SystemExit("the script does not end")
q = 0
def mine():
    global q
    q += 1; return q % nsh == shard
def case(name, wd, kind, nl, hist, cwd, how, lp, stale=None):
    """hist: list of steps before the complete run"""
    global snapshot_now
    W, C, L = world(*wd, kind, nl); d = CWD[cwd](W, C, L); lam = LP[lp](W, L, d); orig = open(L + "/cmake/CMakeLists.txt").read()
    others = {k: v for k, v in snapshot(L).items() if k != "cmake/CMakeLists.txt"}
    if stale is not None:
        for i, (f, dd) in enumerate(FILES):
            p = f"{L}/{dd}/{f}"
            if stale[i] == 1: w(p, "stale copy\n")
            if stale[i] == 2: os.symlink(W + "/gone/" + f, p)
            if stale[i] == 3: w(W + "/old/" + f, "an earlier checkout\n"); os.symlink(W + "/old/" + f, p)
    for st in hist:
        if st[0] == "ok": r = run(C, [st[2](W, L, d) if len(st) > 2 else lam], CWD[st[1]](W, C, L) if len(st) > 1 and st[1] else d, how)
        elif st[0] == "cut": r = run(C, [lam], d, how, st[1])
        else: # refused
            before = snapshot(L); bad = {"none": [], "two": [lam, lam], "absent": [W + "/absent"], "absent-rel": ["absent"], "file": [L + "/src/a.c"], "not-lammps": [W + "/elsewhere"]}[st[1]]
            r = run(C, bad, d, how)
            if r.returncode == 0: ph.viol("install:accepted", f"{name}: run with arguments {bad} from {cwd} ended with status 0"); return
            if snapshot(L) != before: ph.viol("install:refused-changed", f"{name}: a refused run changed the tree"); return
    r = run(C, [lam], d, how); ph.states += 1; ph.traces += 1
    if r.returncode: ph.viol("install:refused", f"{name}: ended with {r.returncode}: {' '.join(r.stderr[-300:].split())}"); return
    snapshot_now = snapshot(L); judge(name, W, C, L, orig, others)
    for f, _ in FILES:
        if stale is not None and 3 in stale and os.path.exists(f"{W}/old/{f}") and open(f"{W}/old/{f}").read() != "an earlier checkout\n": ph.viol("install:other-checkout", f"{name}: the file an old link pointed to was overwritten")
    if ph.states < 3: ph.sample(name)
# 1. every working directory, spelling of the script and of the tree, once and twice
for wd, cwd, how, lp, n in itertools.product(WORLDS, CWD, HOW, LP, (0, 1)):
    if mine(): case(f"checkout '{wd[0]}', tree '{wd[1]}', from {cwd}, called {how}, tree given {lp}, {n} earlier runs", wd, "STATIC", "\n", [("ok",)] * n, cwd, how, lp)
# 2. every history of complete, refused and cut runs up to the depth
W, C, L = world("co", "lammps", "STATIC", "\n"); NC = ncuts(C, L, [L], C + "/pair_symmetrix", "abs"); ph.extra["cut_points"] = NC if shard == 0 else 0
BAD = ["none", "two", "absent", "absent-rel", "file", "not-lammps"]
STEPS = [("ok",)] + [("bad", b) for b in BAD] + [("cut", k) for k in range(NC)]
for depth in range(0, (3 if ph.THOROUGH else 2) + 1):
    for h in itertools.product(STEPS, repeat=depth):
        if depth == 3 and sum(s[0] == "bad" for s in h) > 1: continue
        if mine(): case(f"history {[ '-'.join(map(str, s)) for s in h]} then a complete run", ("co", "lammps"), "STATIC" if len(h) < 2 else "SHARED", "\n", h, "pair", "abs", "abs")
# 3. what the tree contains beforehand, and the end of its build file
for st in itertools.product(range(4), repeat=4):
    if mine(): case(f"names present before {st}", ("co", "lammps"), "STATIC", "\n", [("ok",)] if sum(st) % 2 else [], "deep", "rel", "rel", st)
for kind, nl, n in itertools.product(("STATIC", "SHARED"), ("", "\n", "\n\n", "\nif(FALSE)\nendif()"), range(4)):
    if mine(): case(f"{kind}, build file ends {nl!r}, {n} earlier runs", ("check out", "lammps"), kind, nl, [("ok",)] * n, "co", "rel", "rel")
# 4. runs that spell the same tree differently, one after the other
for a, b in itertools.product(LP, LP):
    for ca, cb in itertools.product(CWD, CWD):
        if mine():
            case(f"tree given {a} from {ca}, then {b} from {cb}", ("co", "lammps"), "STATIC", "\n", [("ok", ca, (lambda W, L, d, a=a, ca=ca: LP[a](W, L, CWD[ca](W, f"{W}/co", L))))], cb, "abs", b)
shutil.rmtree(root, ignore_errors=True)
ph.finish()
