import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import mace_models
# compile-time access instrumentation of everything, runtime in harness/thrrt.cpp
TR = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
def run(c):
    src = [(f"{VERIF}/harness/thrrt.cpp", ["-fno-threadsafe-statics"]), (f"{VERIF}/harness/thrx.cpp", TR), *[(s, [*TR, "-O0"]) for s in lib_sources()]]
    exe = build("thrx", src, ["-std=c++20", "-O1", "-w", "-gline-tables-only"], link=[*BLAS, "-ldl", "-no-pie"], compiler="clang++")
    by = {os.path.basename(p)[:-5]: p for p, s in mace_models.write(c.scratch)}
    ms = [by[k] for k in (("v111", "l1L1", "one_element", "l2L2", "l0L0", "three_elements") if c.thorough else ("v111", "l1L1"))]; n = NPROC
    c.run_many([dict(exe=exe, args=[i, n, *ms], label="threads", env={"OPENBLAS_NUM_THREADS": "1"}) for i in range(n)])
    c.assumptions += ["sphericart is represented by stubs/sphericart.hpp (an instance owns a work buffer)", "BLAS routines touch exactly their arguments"]
if __name__ == "__main__": main(run, "C27")
