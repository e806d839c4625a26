"""Deterministic generator of small MACE model files in symmetrix's JSON format.

generic models:      arbitrary monomials, weights and coupling coefficients (decide formula and gradient properties)
equivariant models:  couplings built from real Clebsch-Gordan tensors of natural parity (decide symmetry properties)
"""
import json, itertools, math
import numpy as np

def gen(i):
    """deterministic number in (-1,1), never 0 (same idea as vh::gen)"""
    m = (1 << 64) - 1
    i = (i * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & m
    i ^= i >> 29; i = (i * 0xBF58476D1CE4E5B9) & m; i ^= i >> 32
    return 2 * ((i >> 11) / 9007199254740992.0) - 1 + 1e-9

class Seq:
    def __init__(self, seed): self.i = seed * 1000003 + 17
    def __call__(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        out = np.array([gen(self.i + k) for k in range(n)]); self.i += n
        return out.reshape(shape) if shape else float(out[0])

# --- real spherical harmonics in the evaluator's convention: Y(xyz) = 2 sqrt(pi) * SH(z,x,y) -------------------
def sh(l_max, p):
    """orthonormal real spherical harmonics without Condon-Shortley phase, rows l*l+l+m; p: (n,3) unit vectors"""
    x, y, z = p.T
    out = np.zeros(((l_max + 1) ** 2, len(p)))
    e = x + 1j * y
    for m in range(l_max + 1):
        P = {}
        P[m] = np.full(len(p), float(np.prod([2 * k - 1 for k in range(1, m + 1)])) if m else 1.0)
        if m < l_max: P[m + 1] = (2 * m + 1) * z * P[m]
        for l in range(m + 2, l_max + 1): P[l] = ((2 * l - 1) * z * P[l - 1] - (l + m - 1) * P[l - 2]) / (l - m)
        for l in range(m, l_max + 1):
            n = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m) * (2 if m else 1))
            out[l * l + l + m] = n * P[l] * (e ** m).real
            if m: out[l * l + l - m] = n * P[l] * (e ** m).imag
    return out

def Y(l_max, v):
    v = np.atleast_2d(np.asarray(v, float)); v = v / np.linalg.norm(v, axis=1)[:, None]
    return 2 * math.sqrt(math.pi) * sh(l_max, v[:, [2, 0, 1]])

def rotation(k):
    q = np.array([gen(4 * k + 1), gen(4 * k + 2), gen(4 * k + 3), gen(4 * k + 900)]); q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

_pts = np.array([[gen(3 * i), gen(3 * i + 1), gen(3 * i + 2)] for i in range(60)]); _pts /= np.linalg.norm(_pts, axis=1)[:, None]
def wigner(l, R):
    A = Y(l, _pts)[l * l:]; B = Y(l, _pts @ R.T)[l * l:]
    return B @ np.linalg.pinv(A)

_cg = {}
def cg(l1, l2, L):
    """real coupling tensor C[M,m1,m2] (norm 1), unique up to sign"""
    if (l1, l2, L) in _cg: return _cg[l1, l2, L]
    rows = []
    n = (2 * L + 1) * (2 * l1 + 1) * (2 * l2 + 1)
    for k in (1, 2, 3):
        R = rotation(k)
        K = np.kron(wigner(L, R), np.kron(wigner(l1, R), wigner(l2, R)))
        rows.append(K - np.eye(n))
    u, s, vt = np.linalg.svd(np.vstack(rows))
    assert s[-1] < 1e-9 and (len(s) < 2 or s[-2] > 1e-3), (l1, l2, L, s[-3:])
    c = vt[-1]; c = c * np.sign(c[np.argmax(abs(c))]); c[abs(c) < 1e-12] = 0
    _cg[l1, l2, L] = c.reshape(2 * L + 1, 2 * l1 + 1, 2 * l2 + 1)
    return _cg[l1, l2, L]

def natural_paths(l1s, l2s, Ls):
    return [(l, l1, l2) for l in Ls for l1 in l1s for l2 in l2s if abs(l1 - l2) <= l <= l1 + l2 and (l + l1 + l2) % 2 == 0]

def equivariant_polys(l_max, L, corr):
    """list of equivariant polynomial families of order <= corr with output degree L: each is {(lm...): coeff} per M"""
    fam = []
    if L <= l_max: fam.append([{(L * L + M,): 1.0} for M in range(2 * L + 1)])
    pairs = {}
    if corr >= 2:
        for l1 in range(l_max + 1):
            for l2 in range(l1, l_max + 1):
                for l in range(abs(l1 - l2), l1 + l2 + 1):
                    if (l1 + l2 + l) % 2: continue
                    C = cg(l1, l2, l); P = [dict() for _ in range(2 * l + 1)]
                    for M in range(2 * l + 1):
                        for a in range(2 * l1 + 1):
                            for b in range(2 * l2 + 1):
                                if abs(C[M, a, b]) > 1e-12:
                                    k = tuple(sorted((l1 * l1 + a, l2 * l2 + b))); P[M][k] = P[M].get(k, 0.0) + C[M, a, b]
                    if max(abs(v) for p in P for v in p.values()) < 1e-9: continue
                    pairs[l1, l2, l] = P
                    if l == L: fam.append(P)
    if corr >= 3:
        cnt = 0
        for (l1, l2, l), P in pairs.items():
            for l3 in range(l_max + 1):
                if not (abs(l - l3) <= L <= l + l3) or (l + l3 + L) % 2: continue
                if cnt >= 4: continue
                C = cg(l, l3, L); Q = [dict() for _ in range(2 * L + 1)]
                for M in range(2 * L + 1):
                    for a in range(2 * l + 1):
                        for b in range(2 * l3 + 1):
                            if abs(C[M, a, b]) > 1e-12:
                                for k, v in P[a].items():
                                    kk = tuple(sorted(k + (l3 * l3 + b,))); Q[M][kk] = Q[M].get(kk, 0.0) + C[M, a, b] * v
                if max(abs(v) for p in Q for v in p.values()) < 1e-9: continue
                fam.append(Q); cnt += 1
    return fam

def make_model(path, atomic_numbers=(1, 8), channels=2, l_max=2, L_max=1, corr=2, zbl=False, a0=False, a1=False,
               equivariant=False, seed=1, r_cut=4.0, nspl=9, sparse=False):
    fan = 1.0 if channels <= 8 else 1.5 / math.sqrt(channels)   # keeps wide models well conditioned
    S = Seq(seed); na = len(atomic_numbers); nlm = (l_max + 1) ** 2; nLM = (L_max + 1) ** 2; ch = channels
    m = dict(num_elements=na, num_channels=ch, r_cut=r_cut, l_max=l_max, L_max=L_max, atomic_numbers=list(atomic_numbers),
             atomic_energies=(3 * S(na)).tolist(), has_zbl=zbl)
    if zbl:
        m.update(zbl_a_exp=0.3 if seed % 2 else 0.23, zbl_a_prefactor=0.4543 if seed % 2 else 0.5291, zbl_c=[0.1818, 0.5099, 0.2802, 0.02817] if seed % 3 else [0.2, 0.45, 0.3, 0.05],
                 zbl_covalent_radii=[0.2 + 0.02 * z + 0.2 * (1 + gen(z)) for z in range(119)], zbl_p=6 if seed % 2 else 5)
    h = (r_cut - 1e-12) / (nspl - 1)
    grid = h * np.arange(nspl)
    def radial(n, amp=1.0, positive=False, grid=grid):
        """n smooth functions vanishing (with slope) at r_cut, as nodal values and slopes"""
        f, g = np.zeros((n, len(grid))), np.zeros((n, len(grid)))
        for k in range(n):
            a, w, c = S(3); w = 1.0 + abs(w); a = 0.4 + abs(a) if positive else a + math.copysign(0.3, a)
            x = grid / r_cut; env = (1 - x) ** 2 * (1 + 2 * x); denv = (-2 * (1 - x) * (1 + 2 * x) + 2 * (1 - x) ** 2) / r_cut
            b = np.cos(w * grid + c); db = -w * np.sin(w * grid + c)
            if positive: b, db = 1.2 + b, db
            f[k], g[k] = amp * a * env * b, amp * a * (denv * b + env * db)
        return f.tolist(), g.tolist()
    npair = na * (na + 1) // 2
    m["radial_spline_h"] = h
    v, d = zip(*[radial((l_max + 1) * ch) for _ in range(npair)])
    m["radial_spline_values_0"], m["radial_spline_derivs_0"] = list(v), list(d)
    m["H0_weights"] = S(na * ch).tolist()
    m["A0_weights"] = [[(fan * S(ch * ch)).tolist() for l in range(l_max + 1)] for a in range(na)]
    m["A0_scaled"] = a0
    if a0:
        hh = (r_cut - 1e-12) / (nspl + 4 - 1); v, d = radial(npair, 0.8, True, hh * np.arange(nspl + 4)); m["A0_spline_h"], m["A0_spline_values"], m["A0_spline_derivs"] = hh, v, d
    # M0
    mono, wt = {}, {str(a): {str(lm): {} for lm in range(nLM)} for a in range(na)}
    if equivariant:
        for L in range(L_max + 1):
            fam = equivariant_polys(l_max, L, corr)
            W = S(na, ch, len(fam)) * 0.7
            for M in range(2 * L + 1):
                lm = L * L + M
                keys = sorted({k for P in fam for k in P[M]}, key=lambda t: (len(t), t))
                mono[str(lm)] = [list(k) for k in keys]
                for a in range(na):
                    for k in range(ch):
                        wt[str(a)][str(lm)][str(k)] = [float(sum(W[a, k, f] * P[M].get(key, 0.0) for f, P in enumerate(fam))) for key in keys]
    else:
        for lm in range(nLM):
            keys = [(i,) for i in range(nlm)]
            if corr >= 2: keys += [c for n, c in enumerate(itertools.combinations_with_replacement(range(nlm), 2)) if (n + lm) % (3 if nlm > 4 else 2) == 0]
            if corr >= 3: keys += [c for n, c in enumerate(itertools.combinations_with_replacement(range(nlm), 3)) if (n + lm) % (37 if nlm > 4 else 5) == 0]
            if corr >= 4: keys += [c for n, c in enumerate(itertools.combinations_with_replacement(range(nlm), 4)) if (n + lm) % (201 if nlm > 4 else 7) == 0]
            if sparse: keys = [k for n, k in enumerate(keys) if (n + lm) % 3 == 0] or keys[:1]
            mono[str(lm)] = [list(k) for k in keys]
            for a in range(na):
                for k in range(ch): wt[str(a)][str(lm)][str(k)] = (0.6 * S(len(keys))).tolist()
    m["M0_weights"], m["M0_monomials"] = wt, mono
    m["H1_weights"] = (fan * S((L_max + 1) * ch * ch)).tolist()
    # Phi1
    paths = natural_paths(range(l_max + 1), range(L_max + 1), range(l_max + 1))
    if sparse: paths = [p for n, p in enumerate(paths) if p[2] == 0 or n % 2 == 0]
    paths.sort(key=lambda p: p[0])
    m["Phi1_l"], m["Phi1_l1"], m["Phi1_l2"] = [p[0] for p in paths], [p[1] for p in paths], [p[2] for p in paths]
    num_e = [sum(1 for p in paths if p[0] == l) for l in range(l_max + 1)]
    lme, cgs, lel, off = [], [], [], 0
    ecount = [0] * (l_max + 1)
    loff = [sum((2 * k + 1) * num_e[k] for k in range(l)) for l in range(l_max + 1)]
    for (l, l1, l2) in paths:
        e = ecount[l]; ecount[l] += 1
        C = cg(l1, l2, l) * math.sqrt(2 * l + 1)
        if not equivariant: C = C + 0.3 * S(*C.shape) * (np.abs(S(*C.shape)) > 0.6)
        for a in range(2 * l1 + 1):
            for b in range(2 * l2 + 1):
                for M in range(2 * l + 1):
                    if abs(C[M, a, b]) > 1e-12:
                        lme.append(loff[l] + M * num_e[l] + e); cgs.append(float(C[M, a, b])); lel.append(off + a * (2 * l2 + 1) + b)
        off += (2 * l1 + 1) * (2 * l2 + 1)
    m["Phi1_lme"], m["Phi1_clebsch_gordan"], m["Phi1_lelm1lm2"] = lme, cgs, lel
    v, d = zip(*[radial(len(paths) * ch) for _ in range(npair)])
    m["radial_spline_values_1"], m["radial_spline_derivs_1"] = list(v), list(d)
    m["A1_weights"] = [(fan * S(num_e[l] * ch * ch)).tolist() for l in range(l_max + 1)]
    m["A1_scaled"] = a1
    if a1:
        hh = (r_cut - 1e-12) / (nspl + 7 - 1); v, d = radial(npair, 0.7, True, hh * np.arange(nspl + 7)); m["A1_spline_h"], m["A1_spline_values"], m["A1_spline_derivs"] = hh, v, d
    # M1
    if equivariant:
        fam = equivariant_polys(l_max, 0, corr); keys = sorted({k for P in fam for k in P[0]}, key=lambda t: (len(t), t)); W = S(na, ch, len(fam)) * 0.7
        m["M1_monomials"] = [list(k) for k in keys]
        m["M1_weights"] = {str(a): {str(k): [float(sum(W[a, k, f] * P[0].get(key, 0.0) for f, P in enumerate(fam))) for key in keys] for k in range(ch)} for a in range(na)}
    else:
        keys = [(i,) for i in range(nlm)]
        if corr >= 2: keys += [c for n, c in enumerate(itertools.combinations_with_replacement(range(nlm), 2)) if n % 2 == 0]
        if corr >= 3: keys += [c for n, c in enumerate(itertools.combinations_with_replacement(range(nlm), 3)) if n % 11 == 0]
        if corr >= 4: keys += [c for n, c in enumerate(itertools.combinations_with_replacement(range(nlm), 4)) if n % (71 if nlm > 4 else 6) == 0]
        m["M1_monomials"] = [list(k) for k in keys]
        m["M1_weights"] = {str(a): {str(k): (0.6 * S(len(keys))).tolist() for k in range(ch)} for a in range(na)}
    m["H2_weights_for_H1"] = [(fan * S(ch * ch)).tolist() for a in range(na)]
    m["H2_weights_for_M1"] = (fan * S(ch * ch)).tolist()
    m["readout_1_weights"] = (fan * S(ch)).tolist()
    m["readout_2_weights_1"] = (fan * S(16 * ch)).tolist()
    m["readout_2_weights_2"] = S(16).tolist()
    m["readout_2_scale_factor"] = 1.6790 if seed % 4 < 2 else 0.8 + 0.17 * (seed % 7)
    with open(path, "w") as f: json.dump(m, f)
    return m
