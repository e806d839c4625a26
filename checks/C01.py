import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def run(c):
    src = [f"{VERIF}/harness/poly.cpp", *core_sources()]
    fast = build("poly", src, FAST); asan = build("poly_asan", src, ASAN)
    n = NPROC
    c.run_many([dict(exe=fast, args=[i, n], label="poly") for i in range(n)])
    c.run_many([dict(exe=asan, args=[i, n], label="poly_asan", count=False, env={"VERIF_TIER": "quick"}) for i in range(n)])
    c.assumptions = ["coefficient values: evaluation is linear in the coefficients, so distinct primes identify each of them",
                     "points: the grid {0..d}^n determines every polynomial of degree<=d per variable; arithmetic on it is exact in double"]
main(run, "C01")
