import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import pypkg
def run(c):
    so = pypkg.ext(); pkg = pypkg.package(c.scratch + "/pkg", so)
    env = {"PYTHONPATH": f"{pkg}:{VERIF}/pyh:{VERIF}/stubs/py:{VERIF}/lib", "MPLCONFIGDIR": c.scratch, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "COLUMNS": "80"}
    n = 16
    c.run_many([dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/clix.py", i, n, c.scratch], label="cli", env=env) for i in range(n)])
    c.assumptions += ["torch, e3nn and mace are represented by stubs/py (see C23)"]
if __name__ == "__main__": main(run, "C24")
