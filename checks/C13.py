import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import kok
MODES = ("spline", "set", "radial", "mlp", "poly", "zbl")
def run(c):
    L = kok.light()
    plain, gpu = kok.together((kok.plain, "kokx", L), (kok.gpu, "kokx", L))
    lv, n = (2, 16) if c.thorough else (1, 4)
    c.run_many([dict(exe=plain, args=[m, lv, i, n], label=m) for m in MODES for i in range(n)])
    c.run_many([dict(exe=gpu, args=[m, lv, i, n], label=m + "_gpu", count=False) for m in MODES for i in range(n)])
    c.assumptions.append(kok.NOTE)
if __name__ == "__main__": main(run, "C13")
