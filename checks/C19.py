import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import lmp, mace_models
SMALL = ("corr1", "one_element", "three_elements", "l1L1", "four_elements", "v111", "elements12")
def run(c):
    fast, asan, kk = lmp.builds(lmp.plain, lmp.asan, lmp.kk)
    ms = [m for m in mace_models.write(c.scratch) if c.thorough or os.path.basename(m[0])[:-5] in SMALL]
    c.run_many([r for f, s in ms for e, st in ((fast, "plain"), (kk, "kk"), (kk, "kkf")) for r in lmp.shards(e, "setup", st, s, f, 8 if "elements" in f else 2, f"setup_{st}")])
    by = {os.path.basename(f)[:-5]: f for f, s in ms}
    c.run_many([r for e, st in ((fast, "plain"), (kk, "kk")) for r in lmp.shards(e, "table", st, "s", by["l1L1"], 8, f"table_{st}")])
    c.run_many([r for f, s in ms for r in lmp.shards(asan, "setup", "plain", s, f, 8 if "elements" in f else 1, "setup_asan", count=False, env={"VERIF_TIER": "quick"})])
    c.assumptions += [lmp.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C19")
