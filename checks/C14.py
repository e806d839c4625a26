import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import kok, mace_models
def run(c):
    plain, gpu, sph = kok.together((kok.plain, "macekx", {}), (kok.gpu, "macekx", {}), (kok.gpu_sph, "macekx", {}))
    ms = mace_models.write(c.scratch)
    c.run_many([dict(exe=plain, args=["agree", p, s, f, i, k], label=f"agree_{p}") for f, s in ms for p in ("double", "float") for k in [8 if s == "n" else 2] for i in range(k)])
    c.run_many([dict(exe=e, args=["agree", p, "s", f, 0, 8], label=f"agree_{p}_{l}", count=False, env={} if c.thorough else {"VERIF_TIER": "quick"})
                for f, s in ms for p in ("double", "float") for e, l in ((gpu, "gpu"), (sph, "gpusph"))])
    c.assumptions += [kok.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C14")
