"""Builds of the LAMMPS pair styles against the simulated machine (stubs/lammps)."""
from vlib import *
import kok
PAIR = f"{REPO}/pair_symmetrix"
LINC = [f"-I{VERIF}/stubs/lammps", f"-I{PAIR}"]
def styles(kokkos):
    return [f for f in sorted(glob.glob(f"{PAIR}/*.cpp")) if kokkos or "kokkos" not in os.path.basename(f)]
def plain(flags=OPT, name="lmpx"):
    return build(name, [f"{VERIF}/harness/lmpx.cpp", *styles(False), *lib_sources(exclude=("spherical_harmonic.cpp",))], flags, inc=[*LINC, *INC])
def asan(): return plain(ASAN, "lmpx_asan")
def kk(): return build("lmpkk", kok.sources("lmpx", extra=styles(True)), [*OPT, "-DMINI_KOKKOS"], inc=[*LINC, *kok.KINC])
def gpu(): return build("lmpgpu", kok.sources("lmpx", extra=styles(True)), [*OPT, "-DMINI_KOKKOS", "-DMK_GPU"], inc=[*LINC, *kok.KINC])
def builds(*fs):
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        return [j.result() for j in [ex.submit(f) for f in fs]]
def shards(exe, what, style, size, f, k, label, **kw):
    return [dict(exe=exe, args=[what, style, size, f, i, k], label=label, **kw) for i in range(k)]
NOTE = "LAMMPS is represented by stubs/lammps: ranks on a processor grid, CommBrick-style ghost exchange, full (and ghost) neighbour lists, pair forward/reverse communication with exact buffers, reverse communication of forces"
