import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def run(c):
    src = [f"{VERIF}/harness/spline.cpp", *core_sources()]
    fast = build("spline", src, FAST); asan = build("spline_asan", src, ASAN); n = NPROC
    c.run_many([dict(exe=fast, args=["set", i, n], label="set") for i in range(n)])
    c.run_many([dict(exe=asan, args=["set", i, n], label="set_asan", count=False, env={"VERIF_TIER": "quick"}) for i in range(n)])
main(run, "C05")
