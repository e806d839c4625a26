import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import mace_models
def run(c, mode="energy"):
    src = [f"{VERIF}/harness/macex.cpp", *lib_sources(exclude=("spherical_harmonic.cpp",))]
    fast = build("macex", src, FAST); asan = build("macex_asan", src, ASAN)
    ms = mace_models.write(c.scratch)
    c.run_many([dict(exe=fast, args=[mode, s, p, i, k], label=mode) for p, s in ms for k in [8 if s == "n" else 2] for i in range(k)])
    c.run_many([dict(exe=asan, args=[mode, "s", p, i, 64], label=mode + "_asan", count=False, env={"VERIF_TIER": "quick"}) for p, s in ms for i in (0,)])
    c.assumptions.append("sphericart is represented by stubs/sphericart.hpp (documented conventions of sphericart 1.x)")
if __name__ == "__main__": main(run, "C09")
