import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import kok, mace_models
from C13 import MODES
def run(c):
    k1, k2 = kok.together((kok.traced, "kokx", kok.light()), (kok.traced, "macekx", {}))
    ms = mace_models.write(c.scratch); env = {"MK_TRACK": "1"}
    lv, n = (2, 16) if c.thorough else (1, 4)
    c.run_many([dict(exe=k1, args=[m, lv, i, n], label=m, env=env) for m in MODES for i in range(n)])
    k = 16 if c.thorough else 2
    c.run_many([dict(exe=k2, args=["sched", p, s, f, i, k], label=f"sched_{p}", env=env) for f, s in ms for p in ("double", "float") for i in range(k)])
    c.run_many([dict(exe=k2, args=["agree", p, "s", f, i, 8 if c.thorough else 32], label=f"graphs_{p}", env={**env, "VERIF_TIER": "quick"}) for f, s in ms for p in ("double", "float") for i in (range(8) if c.thorough else (0,))])
    c.assumptions.append(kok.NOTE)
    c.assumptions.append("accesses are recorded by compiler instrumentation of every load/store of the Kokkos sources; two accesses are concurrent when no team barrier, vector-range end or kernel end separates them, so one execution decides all interleavings of the same work decomposition")
if __name__ == "__main__": main(run, "C15")
