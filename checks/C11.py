import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import models
def run(c):
    src = [f"{VERIF}/harness/symx.cpp", *lib_sources(exclude=("spherical_harmonic.cpp",))]
    fast = build("symx", src, FAST)
    ms = []
    for k, kw in enumerate([dict(l_max=2, L_max=1, corr=3, zbl=True, a0=True, a1=True), dict(l_max=1, L_max=1, corr=2), dict(l_max=2, L_max=2, corr=2, a1=True, channels=1),
                            dict(l_max=3, L_max=1, corr=3, zbl=True), dict(l_max=0, L_max=0, corr=3, a0=True), dict(l_max=3, L_max=2, corr=2, a0=True, a1=True, atomic_numbers=(14,))]):
        kw.setdefault("atomic_numbers", (8, 1)); p = f"{c.scratch}/eq{k}.json"; models.make_model(p, equivariant=True, seed=70 + k, **kw); ms.append(p)
    n = NPROC
    c.run_many([dict(exe=fast, args=[p, i, n], label="sym") for p in ms for i in range(n)])
    c.assumptions.append("sphericart is represented by stubs/sphericart.hpp; model couplings are equivariant by construction (numerically solved Clebsch-Gordan tensors)")
main(run, "C11")
