import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def run(c):
    env = {"PYTHONPATH": f"{VERIF}/pyh"}; n = 16
    c.run_many([dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/instx.py", i, n, c.scratch, REPO], label="install", env=env) for i in range(n)])
    c.assumptions += ["the LAMMPS tree and libsymmetrix's own CMakeLists.txt are small stand-ins; CMake, the compiler and the shell are real", "a run is cut between two commands of the script, not within one"]
if __name__ == "__main__": main(run, "C28")
