import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def run(c):
    src = [f"{VERIF}/harness/toolsx.cpp", *core_sources()]
    fast = build("toolsx", src, FAST); asan = build("toolsx_asan", src, ASAN)
    c.run_many([dict(exe=fast, label="toolsx"), dict(exe=asan, label="toolsx_asan", count=False, env={"VERIF_TIER": "quick", "VERIF_BINOM": "24"})])
main(run, "C07")
