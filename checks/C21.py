import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import pypkg, models, kok
def run(c):
    so, kk, gpu = pypkg.all_exts(); pkg, pk, pg = (pypkg.package(c.scratch + d, o) for d, o in (("/pkg", so), ("/pkgk", kk), ("/pkgg", gpu)))
    a, b = c.scratch + "/two.json", c.scratch + "/one.json"
    models.make_model(a, atomic_numbers=(8, 1), l_max=1, L_max=1, channels=2, corr=2, zbl=True, a0=True, a1=True, equivariant=True, seed=71)
    models.make_model(b, atomic_numbers=(6,), l_max=1, L_max=0, channels=1, corr=2, equivariant=True, seed=72, r_cut=3.5)
    env = {"PYTHONPATH": f"{pkg}:{VERIF}/pyh"}
    c.run_many([dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/calcx.py", m, i, k], label="calc", env=env) for m, k in ((a, 8), (b, 4)) for i in range(k)]
             + [dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/calcx.py", m, i, k, "kokkos", d], label=f"calc_{l}_{d}", env={"PYTHONPATH": f"{p}:{VERIF}/pyh"}) for m in (a, b) for k in [8] for d in ("float64", "float32") for p, l in ((pk, "kokkos"), (pg, "gpu")) for i in range(k) if p is pk or c.thorough or i < 2])
    # the calculator's other neighbour list (used when matscipy is installed), and a model of three elements
    m3 = c.scratch + "/three.json"; models.make_model(m3, atomic_numbers=(16, 1, 6), l_max=2, L_max=1, channels=2, corr=2, a0=True, equivariant=True, seed=73)
    c.run_many([dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/calcx.py", m3, i, 8, *x], label=l, env={"PYTHONPATH": f"{p}:{VERIF}/pyh:{VERIF}/stubs/py_matscipy"}) for p, x, l in ((pkg, [], "calc_matscipy"), (pk, ["kokkos", "float64"], "calc_matscipy_kokkos")) for i in range(8)])
    c.assumptions += ["matscipy is absent: the calculator is run with ase.neighborlist, as it falls back by itself, and with stubs/py_matscipy (pairs grouped by i, another order within)", "sphericart stand-in", kok.NOTE]
if __name__ == "__main__": main(run, "C21")
