import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def run(c):
    src = [f"{VERIF}/harness/mlp.cpp", *core_sources()]
    fast = build("mlp", src, FAST); asan = build("mlp_asan", src, ASAN); n = NPROC
    c.run_many([dict(exe=fast, args=[i, n], label="mlp") for i in range(n)])
    c.run_many([dict(exe=asan, args=[i, n], label="mlp_asan", count=False, env={"VERIF_TIER": "quick"}) for i in range(n)])
main(run, "C03")
