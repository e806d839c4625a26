"""Builds of the Kokkos code against the controlled stand-in (stubs/kokkos)."""
from vlib import *
KINC = [f"-I{VERIF}/stubs/kokkos", *INC]
# compile-time access instrumentation only: the callbacks are in stubs/kokkos/mk.cpp, no sanitizer runtime is linked
TRACE = ["-fsanitize=thread", *[x for o in ("atomics", "func-entry-exit", "memintrinsics") for x in ("-mllvm", f"-tsan-instrument-{o}=0")]]
def sources(harness, extra=(), trace=False, serial=None, kokkos=None):
    t = TRACE if trace else []
    kk = kokkos if kokkos is not None else lib_sources(kokkos=True)
    ss = serial if serial is not None else lib_sources(exclude=("spherical_harmonic.cpp",))
    return [(f"{VERIF}/harness/{harness}.cpp", t), *ss, *[(k, t) for k in kk], f"{VERIF}/stubs/kokkos/mk.cpp", *extra]
def plain(harness, **k): return build(harness, sources(harness, **k), OPT, inc=KINC)
def gpu(harness, **k): return build(harness + "_gpu", sources(harness, **k), [*OPT, "-DMK_GPU"], inc=KINC)
def traced(harness, **k): return build(harness + "_trace", sources(harness, trace=True, **k), ["-std=c++20", "-O1", "-w"], inc=KINC, compiler="clang++")
def light():   # everything that is not the MACE evaluator: compiles in a few seconds
    return dict(serial=lib_sources(exclude=("spherical_harmonic.cpp", "mace.cpp")), kokkos=[s for s in lib_sources(kokkos=True) if "mace" not in os.path.basename(s)])
def gpu_sph(harness, **k): return build(harness + "_gpusph", sources(harness, **k), [*OPT, "-DMK_GPU", "-DSYMMETRIX_SPHERICART_CUDA"], inc=KINC)
def together(*jobs):
    """run several builds at once"""
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        return [j.result() for j in [ex.submit(f, h, **k) for f, h, k in jobs]]
NOTE = "Kokkos is represented by stubs/kokkos: cooperative fibers for team threads and vector lanes, views with bounds and liveness, separate host/device spaces in the _gpu builds"
