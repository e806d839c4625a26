"""C21: the ASE calculator over every structure of a bounded family.  usage: calcx.py MODEL SHARD NSHARDS [kokkos dtype]
Oracle: brute-force enumeration of periodic images, then the evaluator called directly; forces and stress assembled from its
edge derivatives and (on every structure of a sub-family) from finite differences of the energy."""
import sys, itertools, warnings
import numpy as np
import ph
warnings.filterwarnings("ignore")
import logging; logging.disable(logging.CRITICAL)
from ase import Atoms
import symmetrix
from symmetrix import Symmetrix
from symmetrix.symmetrix import MACE

model, shard, nshards = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
kokkos = len(sys.argv) > 4 and sys.argv[4] == "kokkos"
dtype = sys.argv[5] if len(sys.argv) > 5 else "float64"
TOL = 1e-8 if dtype == "float64" else 3e-4
ref = MACE(model); RC = ref.r_cut; Z = list(ref.atomic_numbers)

def graph(pos, cell, pbc):
    per = [k for k in range(3) if pbc[k] and np.linalg.norm(cell[k]) > 0]
    rng = []
    span = np.ptp(pos, axis=0).max() * 2 + RC
    for k in range(3):
        if k not in per: rng.append([0]); continue
        others = [cell[q] for q in per if q != k]
        v = cell[k].copy()
        if others:  # height of the cell above the span of the other periodic vectors
            q, _ = np.linalg.qr(np.array(others).T); v = v - q @ (q.T @ v)
        n = int(np.ceil((RC + np.linalg.norm(np.ptp(pos, axis=0))) / np.linalg.norm(v))) + 1
        rng.append(range(-n, n + 1))
    E = []
    sh = np.array([np.array(s) @ cell for s in itertools.product(*rng)])
    zero = np.array([not any(s) for s in itertools.product(*rng)])
    for i in range(len(pos)):
        for j in range(len(pos)):
            D = pos[j] + sh - pos[i]; r = np.linalg.norm(D, axis=1)
            for k in np.nonzero((r < RC) & ~(zero & (i == j)))[0]: E.append((i, j, D[k], r[k]))
    return E

def evaluate(pos, cell, pbc, types):
    E = graph(pos, cell, pbc); N = len(pos)
    nn = [0] * N
    for e in E: nn[e[0]] += 1
    ref.compute_node_energies_forces(N, np.array(types, dtype=np.intc), np.array(nn, dtype=np.intc), np.array([e[1] for e in E], dtype=np.intc),
        np.array([types[e[1]] for e in E], dtype=np.intc), np.array([e[2] for e in E], dtype=float).reshape(-1), np.array([e[3] for e in E], dtype=float))
    en = np.array(ref.node_energies); pf = np.array(ref.node_forces).reshape(-1, 3)
    F = np.zeros((N, 3)); W = np.zeros((3, 3))
    for (i, j, D, r), f in zip(E, pf): F[j] += f; F[i] -= f; W -= np.outer(f, D)
    return en, F, (W + W.T) / 2, len(E)

FAR = 9.0
# positions: near pair, close triangle, one outside every cell on the negative side, one far away (isolated without images), one on the cell boundary
P = np.array([[0.1, 0.2, 0.3], [1.2, 0.4, -0.1], [0.3, 1.5, 0.9], [-3.1, 0.2, 0.4], [FAR, FAR, -FAR], [3.0, 0.0, 0.0]])
CELLS = [("cubic4.4", np.eye(3) * 4.4), ("cubic2.3", np.eye(3) * 2.3), ("cubic20", np.eye(3) * 20.), ("ortho", np.diag([2.9, 4.7, 6.1])),
         ("triclinic", np.array([[3.7, 0.2, -0.4], [1.6, 4.1, 0.3], [-1.1, 0.8, 4.6]])), ("lefthanded", np.array([[0.3, 4.1, 0.1], [3.9, 0.2, 0.0], [0.5, 0.4, 4.2]])),
         ("permuted-axes", np.array([[0, 0, 5.], [4.2, 0, 0], [0, 6.3, 0]]))]
CONF = [(n, c, p) for n, c in CELLS for p in itertools.product([False, True], repeat=3)]
CONF += [("no-cell", np.zeros((3, 3)), (False,) * 3),
         ("rank1", np.array([[2.6, 0.3, 0], [0, 0, 0], [0, 0, 0]]), (True, False, False)), ("rank1b", np.array([[0, 0, 0], [0, 0, 0], [0.4, 0, 3.3]]), (False, False, True)),
         ("rank1np", np.array([[2.6, 0, 0], [0, 0, 0], [0, 0, 0]]), (False,) * 3),
         ("rank2", np.array([[3.1, 0, 0], [1.0, 3.6, 0], [0, 0, 0]]), (True, True, False)), ("rank2b", np.array([[3.1, 0, 0], [0, 0, 0], [0.2, 0, 3.9]]), (True, False, True)),
         ("rank2half", np.array([[3.1, 0, 0], [0, 3.6, 0.4], [0, 0, 0]]), (False, True, False))]
def structures():
    q = 0
    for (cn, cell, pbc) in CONF:
        nmax = 3 if not ph.THOROUGH else 4
        for n in range(1, nmax + 1):
            for idx in (itertools.permutations(range(len(P)), n) if (n <= 2 or (ph.THOROUGH and n == 3)) else itertools.combinations(range(len(P)), n)):
                if n > 1 and cn == "cubic2.3" and len(set(idx) & {3, 4, 5}) > 1: continue    # many images: keep the lists bounded
                for types in itertools.product(range(len(Z)), repeat=n) if (n <= 1 or ph.THOROUGH) else [tuple((q + k * k) % len(Z) for k in range(n))]:
                    q += 1
                    if q % nshards == shard: yield cn, cell, pbc, idx, types
def larger():      # many atoms, alternating with few on the same calculator
    rng = lambda k: np.modf(np.sin(np.arange(k) * 12.9898 + k) * 43758.5453)[0]
    for n, (nm, cell) in itertools.product((7, 18, 33, 40, 65), (("cubic", np.eye(3)), ("skew", np.array([[1, .1, 0], [.3, 1, .2], [-.2, .1, 1.1]])))):
        m = int(np.ceil(n ** (1 / 3))); a = 2.3 * m; g = np.array(list(itertools.product(range(m), repeat=3)))[:n] / m
        for pbc in ((True,) * 3, (False,) * 3, (True, False, True)):
            yield f"{nm} {n} atoms", cell * a, pbc, (g + 0.05 / m * rng(3 * n).reshape(n, 3)) @ (cell * a), tuple((k * k + k // 3) % len(Z) for k in range(n))
def work():
    for cn, cell, pbc, idx, types in structures(): yield cn, cell, pbc, P[list(idx)].copy(), types
    small = [("pair", np.eye(3) * 4.4, (True,) * 3, P[:2].copy(), (0, len(Z) - 1)), ("single", np.eye(3) * 20., (False,) * 3, P[:1].copy(), (0,))]
    for k, x in enumerate(larger()):
        if k % nshards == shard:
            yield x; yield x; yield small[k % 2]; yield small[k % 2]    # both halves: fresh and reused calculator
calc = Symmetrix(model, use_kokkos=kokkos, dtype=dtype)
def close(a, b, s): a = np.asarray(a); b = np.asarray(b); return a.shape == b.shape and bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= TOL * (1 + s)))
for q, (cn, cell, pbc, pos, types) in enumerate(work()):
    E = graph(pos, cell, pbc)
    if any(e[3] < 0.45 for e in E) or (len(E) > 400 and len(pos) < 7): ph.ex("skipped_too_close_or_too_many_edges"); continue
    ph.states += 1; ph.traces += 1
    case = "cell=%s pbc=%s positions=%s Z=%s kokkos=%s %s" % (cn, pbc, pos.round(9).tolist(), [Z[t] for t in types], kokkos, dtype)
    en, F, W, ne = evaluate(pos, cell, pbc, types)
    if not np.all(np.isfinite(F)): ph.ex("skipped_nonfinite_reference"); continue
    s = max(np.abs(en).max(), np.abs(F).max())
    atoms = Atoms(numbers=[Z[t] for t in types], positions=pos, cell=cell, pbc=pbc)
    before = (atoms.positions.copy(), atoms.cell.array.copy(), atoms.pbc.copy(), atoms.numbers.copy())
    atoms.calc = calc if q % 2 else Symmetrix(model, use_kokkos=kokkos, dtype=dtype)
    try:
        e1 = atoms.get_potential_energy(); f1 = atoms.get_forces(); pe = atoms.get_potential_energies(); fe = atoms.get_potential_energy(force_consistent=True)
    except Exception as x:
        ph.viol("calc:raises", "%s: %r on %s" % ("energy/forces", x, case)); continue
    ph.transitions += 5
    if not close(pe, en, np.abs(en).max()): ph.viol("calc:energies", "per-atom energies %s expected %s on %s" % (pe, en, case))
    if not close(e1, en.sum(), np.abs(en).max() * len(en)): ph.viol("calc:energy", "energy %r expected %r on %s" % (e1, en.sum(), case))
    if not close(fe, en.sum(), np.abs(en).max() * len(en)): ph.viol("calc:free_energy", "free energy %r expected %r on %s" % (fe, en.sum(), case))
    if not close(f1, F, s): ph.viol("calc:forces", "forces %s expected %s on %s" % (f1.tolist(), F.tolist(), case))
    vol = abs(np.linalg.det(cell))
    if vol > 1e-9:
        try:
            st = atoms.get_stress(); w = W / vol
            want = np.array([w[0, 0], w[1, 1], w[2, 2], w[1, 2], w[0, 2], w[0, 1]])
            if not close(np.asarray(st) * vol, want * vol, s * RC): ph.viol("calc:stress", "stress %s expected %s on %s" % (st, want, case))
        except Exception as x: ph.viol("calc:stress-raises", "%r on %s" % (x, case))
    after = (atoms.positions, atoms.cell.array, atoms.pbc, atoms.numbers)
    if not all(np.array_equal(a, b) for a, b in zip(before, after)): ph.viol("calc:modifies-atoms", case)
    # the oracle itself against finite differences of the energy
    if q % (16 if ph.THOROUGH else 64) == 0 and ne and len(pos) < 7:
        h = 1e-5
        for a in range(len(pos)):
            for k in range(3):
                d = np.zeros_like(pos); d[a, k] = h
                fd = -(evaluate(pos + d, cell, pbc, types)[0].sum() - evaluate(pos - d, cell, pbc, types)[0].sum()) / (2 * h); ph.ex("finite_differences")
                if abs(fd - F[a, k]) > 1e-4 * (1 + s): ph.viol("calc:forces-vs-fd", "finite difference %r, assembled %r on %s" % (fd, F[a, k], case))
        if vol > 1e-9:
            for k in range(3):
                for l in range(k, 3):
                    e = np.zeros((3, 3)); e[k, l] += h / 2; e[l, k] += h / 2
                    g = [evaluate(pos @ (np.eye(3) + sg * e), cell @ (np.eye(3) + sg * e), pbc, types)[0].sum() for sg in (1, -1)]
                    fd = (g[0] - g[1]) / (2 * h)
                    if abs(fd - W[k, l]) > 1e-4 * (1 + s * RC): ph.viol("calc:virial-vs-fd", "finite difference %r, assembled %r on %s" % (fd, W[k, l], case))
    if q < 3: ph.sample("%s -> energies %s" % (case, en.round(6).tolist()))
ph.finish()
