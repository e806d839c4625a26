"""The model variants used by the MACE checks (written into a scratch directory)."""
import os, models, itertools
def write(dirname, quick=True):
    """returns [(path, size)] ; size n: full graph enumeration, s: smaller"""
    out = []
    def mk(name, size, **kw):
        p = f"{dirname}/{name}.json"; models.make_model(p, **kw); out.append((p, size))
    for i, (z, a, b) in enumerate(itertools.product([False, True], repeat=3)):
        mk(f"v{int(z)}{int(a)}{int(b)}", "n" if i in (0, 7) else "s", zbl=z, a0=a, a1=b, seed=10 + i, atomic_numbers=(8, 1))
    for n, (l, L) in enumerate([(0, 0), (1, 0), (1, 1), (2, 0), (2, 2), (3, 1)]):
        mk(f"l{l}L{L}", "s", l_max=l, L_max=L, seed=30 + n, corr=3 if l < 3 else 2, channels=[2, 3, 1, 4, 2, 2][n], a0=bool(n % 2), zbl=n % 3 == 0, r_cut=[4.0, 2.7, 5.3][n % 3])
    mk("one_element", "n", atomic_numbers=(14,), corr=3, a1=True, seed=50)
    mk("three_elements", "s", atomic_numbers=(8, 1, 6), corr=3, a0=True, a1=True, zbl=True, seed=51, sparse=True)
    mk("four_elements", "s", atomic_numbers=(79, 1, 26, 6), l_max=1, a0=True, a1=True, zbl=True, seed=52, channels=5, nspl=30)
    mk("corr4", "s", l_max=1, L_max=1, corr=4, seed=53, channels=2, a1=True)
    mk("corr1", "s", l_max=2, L_max=1, corr=1, seed=54, channels=3, zbl=True)
    # sizes of two digits: entries named "10" sort before "2", blocks of 4/8/16/32 have remainders
    mk("channels33", "s", l_max=1, L_max=1, corr=2, seed=55, channels=33, a0=True, nspl=7)
    mk("elements12", "s", atomic_numbers=(92, 8, 1, 6, 26, 79, 14, 7, 118, 13, 3, 47), l_max=1, L_max=0, corr=2, seed=56, channels=2, zbl=True, a0=True, a1=True, nspl=7)
    mk("l3L3", "s", l_max=3, L_max=3, corr=2, seed=57, channels=11, a1=True, nspl=7, sparse=True)
    return out
