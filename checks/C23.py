import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
import pypkg, json, itertools
def specs(tier):
    S = [dict(seed=1, zs=[1, 8], K=2, L=1), dict(seed=2, zs=[1, 6, 8], K=1, L=0, d0=True, zbl=True), dict(seed=3, zs=[3, 17], K=3, L=2, d1=True, tuple=True, ae2d=False),
         dict(seed=4, zs=[1, 29], K=2, L=1, d0=True, d1=True, zbl=True, rc=5.5, old=True), dict(seed=5, zs=[26], K=2, L=2, zbl=False, ae2d=False, heads=["Default"]),
         dict(seed=6, zs=[1, 6], K=2, L=0, heads=["pt_head", "Default"], zbl=True), dict(seed=7, zs=[6, 14, 32], K=2, L=1, heads=["a", "pt_head", "b"], head="b", d1=True),
         dict(seed=8, zs=[8, 1, 6], K=2, L=1, d0=True, tuple=True, heads=["x", "y"]), dict(seed=9, zs=[79], K=4, L=1, d0=True, d1=True, ae2d=True, rc=3.0, tuple=True),
         dict(seed=10, zs=[5, 7], K=1, L=2, heads=["pt_head", "u", "v"], head="pt_head", zbl=True, d0=True, d1=True, avg0=31.0, avg1=1.0),
         # two-digit numbers of channels and elements: entries named "10" sort before "2"
         dict(seed=11, zs=[14], K=12, L=1, d1=True), dict(seed=12, zs=[1, 3, 5, 6, 7, 8, 9, 14, 26, 29, 47, 79], K=1, L=0, zbl=True, d0=True)]
    if tier == "thorough":
        n = 20
        for L, d0, d1, zbl in itertools.product((0, 1, 2), (False, True), (False, True), (None, True)):
            for hs, h in ((None, None), (["pt_head", "q"], None), (["pt_head", "q", "w"], "w")):
                n += 1; s = dict(seed=n, zs=[[1, 8], [6, 9, 15], [47]][n % 3], K=1 + n % 3, L=L, d0=d0, d1=d1, tuple=bool(n % 2), ae2d=bool(n // 2 % 2), rc=[4.0, 5.0, 3.3][n // 3 % 3], old=bool(n // 5 % 2))
                if zbl is not None: s["zbl"] = zbl
                if hs: s["heads"] = hs
                if h: s["head"] = h
                S.append(s)
    for s in S: s.setdefault('avg0', 1.7); s.setdefault('avg1', 0.55)      # small, so that no term of the model is drowned by the others
    return S
def run(c):
    so = pypkg.ext(); pkg = pypkg.package(c.scratch + "/pkg", so); S = specs(c.tier); sf = c.scratch + "/specs.json"; json.dump(S, open(sf, "w"))
    env = {"PYTHONPATH": f"{pkg}:{VERIF}/pyh:{VERIF}/stubs/py:{VERIF}/lib", "SPECS": sf, "MPLCONFIGDIR": c.scratch, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    jobs = [dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/extractx.py", "energy", i, c.scratch], label="energy", env={**env, **({"FAKE_OLD_MACE": "1"} if s.get("old") else {})}) for i, s in enumerate(S)]
    jobs.append(dict(exe="/usr/bin/python3", args=[f"{VERIF}/pyh/extractx.py", "refuse", 0, c.scratch], label="refuse", env=env))
    c.run_many(jobs)
    c.assumptions += ["torch, e3nn and mace are absent: stubs/py stands in for the interface the extractor uses (weight layouts, path normalisations and tensor sharing of e3nn 0.4/mace 0.3); coupling tensors are arbitrary, so agreement does not rely on equivariance"]
if __name__ == "__main__": main(run, "C23")
