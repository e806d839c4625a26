import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import lmp, mace_models
def run(c):
    fast, asan = lmp.builds(lmp.plain, lmp.asan)
    ms = mace_models.write(c.scratch)
    c.run_many([r for f, s in ms for r in lmp.shards(fast, "tally", "plain", s, f, 4, "tally")])
    c.run_many([r for f, s in ms if s == "n" for r in lmp.shards(asan, "tally", "plain", "s", f, 2, "tally_asan", count=False, env={"VERIF_TIER": "quick"})])
    c.assumptions += [lmp.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C18")
