import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import kok, lmp, mace_models
FULL = ("v111", "three_elements"); SOME = (*FULL, "one_element", "l2L2", "v000", "l3L1")
def run(c):
    kk, gpu = lmp.builds(lmp.kk, lmp.gpu)
    ms = mace_models.write(c.scratch); jobs = []; Q = {"VERIF_TIER": "quick"}; T = c.thorough
    for f, s in ms:
        n = os.path.basename(f)[:-5]; full = T or n in FULL; some = T or n in SOME
        jobs += lmp.shards(kk, "decomp", "kk", "s" if T else "t" if full else "u", f, 16 if full else 2, "decomp_double", env=Q)
        if some: jobs += lmp.shards(gpu, "decomp", "kk", "t" if T else "u", f, 8 if T else 2, "decomp_gpu_double", env=Q) + lmp.shards(kk, "tally", "kk", s if T else "s", f, 2, "tally_double", env=Q)
        if full:
            jobs += lmp.shards(gpu, "tally", "kk", "s", f, 2, "tally_gpu_double", env=Q)
            jobs += lmp.shards(kk, "decomp", "kkf", "t" if T else "u", f, 8 if T else 2, "decomp_float", env=Q) + lmp.shards(kk, "tally", "kkf", "s", f, 1, "tally_float", env=Q)
            jobs += lmp.shards(gpu, "setup", "kk", "s", f, 8 if "elements" in f else 2, "setup_gpu_double", env=Q) + lmp.shards(gpu, "decomp", "kkf", "u", f, 2, "decomp_gpu_float", env=Q)
    # the /kk/host variants of a GPU build
    jobs += [dict(exe=gpu, args=["tally", st, "s", ms[0][0], 0, 8], label=st, env=Q) for st in ("kkhost", "kkhostf")]
    c.run_many(jobs)
    c.assumptions += [lmp.NOTE, kok.NOTE, "sphericart is represented by stubs/sphericart.hpp"]
if __name__ == "__main__": main(run, "C20")
