import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import mace_models
def run(c):
    src = [f"{VERIF}/harness/macex.cpp", *lib_sources(exclude=("spherical_harmonic.cpp",))]
    fast = build("macex", src, FAST); asan = build("macex_asan", src, ASAN)
    ms = [m for m in mace_models.write(c.scratch) if "four" not in m[0]]
    c.run_many([dict(exe=fast, args=["reuse", s, p, i, k], label="reuse") for p, s in ms for k in [4 if s == "n" else 2] for i in range(k)])
    c.run_many([dict(exe=asan, args=["reuse", "s", p, i, 8], label="reuse_asan", count=False, env={"VERIF_TIER": "quick"}) for p, s in ms for i in (0, 3)])
    c.assumptions.append("sphericart is represented by stubs/sphericart.hpp")
main(run, "C12")
