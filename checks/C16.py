import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import kok, mace_models
def run(c):
    plain, gpu, tr = kok.together((kok.plain, "macekx", {}), (kok.gpu, "macekx", {}), (kok.traced, "macekx", {}))
    ms = mace_models.write(c.scratch)
    c.run_many([dict(exe=plain, args=["reuse", p, s, f, i, k], label=f"reuse_{p}") for f, s in ms for p in ("double", "float") for k in [8 if s == "n" else 2] for i in range(k)])
    c.run_many([dict(exe=e, args=["reuse", "double", "s", f, i, 4], label=f"reuse_{l}", count=False, env={"VERIF_TIER": "quick", "MK_TRACK": "1"} if l == "traced" else {"VERIF_TIER": "quick"})
                for f, s in ms for e, l in ((gpu, "gpu"), (tr, "traced")) for i in range(4)])
    c.assumptions += [kok.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C16")
