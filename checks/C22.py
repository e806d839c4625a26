import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import pypkg, models, kok
def run(c):
    so, kk, gpu = pypkg.all_exts(); pkg, pk, pg = (pypkg.package(c.scratch + d, o) for d, o in (("/pkg", so), ("/pkgk", kk), ("/pkgg", gpu))); m = c.scratch + "/two.json"
    models.make_model(m, atomic_numbers=(8, 1), l_max=1, L_max=1, channels=1, corr=2, zbl=True, a0=True, a1=True, equivariant=True, seed=81)
    env = {"PYTHONPATH": f"{pkg}:{VERIF}/pyh:{VERIF}/stubs/py:{VERIF}/lib", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}; n = 16
    ek, eg = ({**env, "PYTHONPATH": env["PYTHONPATH"].replace(pkg, p)} for p in (pk, pg)); os.makedirs(c.scratch + "/b"); os.makedirs(c.scratch + "/bk"); R = f"{VERIF}/pyh/reusex.py"
    c.run_many([dict(exe="/usr/bin/python3", args=[R, "build", m, c.scratch + "/b"], label="build", env=env), dict(exe="/usr/bin/python3", args=[R, "build", m, c.scratch + "/bk", "kokkos"], label="build_kokkos", env=ek)]
             + [dict(exe="/usr/bin/python3", args=[R, "hist", m, i, 32, "kokkos", d], label=f"hist_{l}_{d}", env=e) for e, l in ((ek, "kokkos"), (eg, "gpu")) for d in ("float64", "float32") for i in range(32) if c.thorough or i % (4 if l == "kokkos" else 16) == 0]
             + [dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/reusex.py", "hist", m, i, n], label="hist", env=env) for i in range(n)])
    c.assumptions += ["torch, e3nn and mace are represented by stubs/py (see C23)", kok.NOTE, "caching is observed through the calculate() method that ASE calls"]
if __name__ == "__main__": main(run, "C22")
