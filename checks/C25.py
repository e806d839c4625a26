import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import pypkg, models, kok
def run(c):
    so, kk, gpu = pypkg.all_exts(); pkg, pk, pg = (pypkg.package(c.scratch + d, o) for d, o in (("/pkg", so), ("/pkgk", kk), ("/pkgg", gpu))); m = c.scratch + "/two.json"
    models.make_model(m, atomic_numbers=(8, 1), l_max=1, L_max=1, channels=2, corr=2, a0=True, a1=True, equivariant=True, seed=91)
    env = {"PYTHONPATH": f"{pkg}:{VERIF}/pyh", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}; n = 16
    c.run_many([dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/bindx.py", m, i, n], label="bind", env=env) for i in range(n)]
             + [dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/bindx.py", m, i, n, "kokkos"], label=f"bind_{l}", env={**env, "PYTHONPATH": f"{p}:{VERIF}/pyh"}) for p, l in ((pk, "kokkos"), (pg, "gpu")) for i in range(n) if l == "kokkos" or c.thorough or i % 4 == 0])
    c.assumptions.append(kok.NOTE)
if __name__ == "__main__": main(run, "C25")
