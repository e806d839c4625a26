import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import lmp, mace_models
FULL = ("three_elements", "l2L2", "v100", "v010", "v001")
def run(c):
    fast, asan = lmp.builds(lmp.plain, lmp.asan)
    ms = mace_models.write(c.scratch)
    size = lambda f, s: s if c.thorough or s == "n" or os.path.basename(f)[:-5] in FULL else "t"
    c.run_many([r for f, s in ms for r in lmp.shards(fast, "decomp", "plain", size(f, s), f, 16 if s == "n" or c.thorough else 4, "decomp")])
    c.run_many([r for f, s in ms if c.thorough or s == "n" or "three" in f for r in lmp.shards(asan, "decomp", "plain", "t" if c.thorough else "u", f, 2, "decomp_asan", count=False, env={"VERIF_TIER": "quick"})])
    c.assumptions += [lmp.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C17")
