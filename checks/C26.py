import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import kok, mace_models
def run(c):
    exe, gpu = kok.together((kok.plain, "loadx", {}), (kok.gpu, "loadx", {}))
    ms = [p for p, s in mace_models.write(c.scratch)]; by = {os.path.basename(p)[:-5]: p for p in ms}
    cut = [by[k] for k in (("l0L0", "l1L1", "one_element", "v111") if c.thorough else ("l0L0", "l1L1"))]
    pairs = [("l1L1", "l2L0"), ("l3L1", "l0L0"), ("v000", "v111"), ("one_element", "three_elements")]
    R = [dict(exe=exe, args=["trunc", k, c.scratch, i, 8, p], label=f"trunc_{k}") for k in ("serial", "double", "float") for p in cut for i in range(8)]
    R += [dict(exe=exe, args=["keys", k, c.scratch, 0, 1, p], label=f"keys_{k}") for k in ("serial", "double", "float") for p in ms]
    R += [dict(exe=exe, args=["text", k, c.scratch, 0, 1, p], label=f"text_{k}") for k in ("serial", "double", "float") for p in ms]
    R += [dict(exe=exe, args=["hist", k, c.scratch, i, 8, by[a], by[b]], label=f"hist_{k}") for k in ("serial", "double", "float") for a, b in pairs for i in range(8)]
    c.run_many(R)
    c.run_many([dict(exe=gpu, args=[m, k, c.scratch, i, n, by["l1L1"], by["v111"]], label=f"{m}_{k}_gpu", count=False, env={"VERIF_TIER": "quick"}) for k in ("double", "float") for m, n in (("keys", 1), ("hist", 4)) for i in range(n)])
    c.assumptions += [kok.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C26")
