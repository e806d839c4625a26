import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def run(c):
    src = [f"{VERIF}/harness/sph.cpp", f"{LIB}/spherical_harmonic.cpp"]
    fast = build("sph", src, FAST); asan = build("sph_asan", src, ASAN); n = NPROC
    c.run_many([dict(exe=fast, args=[i, n], label="sph") for i in range(n)])
    c.run_many([dict(exe=asan, args=[i, n], label="sph_asan", count=False, env={"VERIF_TIER": "quick"}) for i in range(n)])
    c.assumptions.append("sphericart is represented by stubs/sphericart.hpp (documented conventions of sphericart 1.x)")
main(run, "C08")
