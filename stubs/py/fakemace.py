"""A small MACE model (ScaleShiftMACE semantics, arbitrary coupling tensors) with the attribute layout of mace-torch, and its
plain per-atom energies.  File format: pickled specification."""
import pickle, math, itertools, copy
import numpy as np
from torch import Tensor
import torch
from e3nn.o3 import Irrep, Irreps, Linear
from mace.modules import blocks, radial
def gen(i):
    m = (1 << 64) - 1
    i = (i * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & m; i ^= i >> 29; i = (i * 0xBF58476D1CE4E5B9) & m; i ^= i >> 32
    return 2 * ((i >> 11) / 9007199254740992.0) - 1 + 1e-9
class Seq:
    def __init__(s, seed): s.i = seed * 1000003 + 29
    def __call__(s, *shape):
        n = int(np.prod(shape)); a = np.array([gen(s.i + k) for k in range(n)]).reshape(shape); s.i += n
        return np.float32(a).astype(np.float32).view(Tensor)          # parameters are stored in single precision
class NS:
    def __init__(s, **k): s.__dict__.update(k)
LMAX = 3
NIR = [Irrep(l, (-1) ** l) for l in range(8)]
_U = {}
def U_matrix(irreps_in, irreps_out, corr):
    """coupling tensor, last axis eta; generic (not equivariant), sparse, with entries related by permutation of the inputs"""
    irreps_in = Irreps(irreps_in); irreps_out = Irreps(irreps_out)
    assert irreps_in == Irreps([(1, NIR[l]) for l in range(LMAX + 1)]), irreps_in
    l = irreps_out[0][1].l; key = (l, corr)
    if key not in _U:
        n = (LMAX + 1) ** 2; eta = [0, 1, 2, 3][corr] + (1 if l == 0 and corr > 1 else 0); U = np.zeros((2 * l + 1,) + (n,) * corr + (eta,))
        q = 977 * l + 131 * corr
        for m in range(2 * l + 1):
            for e in range(eta):
                for s in range(7 if corr > 1 else 3):
                    q += 1
                    idx = tuple(int(abs(gen(q * 17 + 3 * c)) * n) % n for c in range(corr))
                    for pi, p in enumerate(sorted(set(itertools.permutations(idx)))): U[(m,) + p + (e,)] += gen(q + 7919 * (pi + 1)) + 0.5
        _U[key] = U if l > 0 else U[0]
    return [str(irreps_out), _U[key].copy().view(Tensor)]
def lin(S, ii, io):
    L = Linear(ii, io); L.weight = S(len(L.weight)); return L
class Skip:
    """FullyConnectedTensorProduct with one-hot attributes: weight [K, N, K] per output irrep"""
    def __init__(s, ws): s.ws = ws
    def weight_views(s, weight=None, yield_instruction=False):
        for i, w in enumerate(s.ws): yield (i, NS(i_in1=i, i_in2=0, i_out=i), w) if yield_instruction else w
    def weight_view_for_instruction(s, i, weight=None): return s.ws[i]
class MLP:
    amp = 5
    def __init__(s, S, nin, nout, hidden=4): s.a = S(nin, hidden); s.b = (np.asarray(S(hidden, nout)) * np.float32(s.amp)).view(Tensor)
    def __call__(s, x): x = np.asarray(x); h = x @ np.asarray(s.a); return (np.tanh(h) @ np.asarray(s.b)).view(Tensor)
class Density(MLP):
    amp = 3
class Radial:
    """bessel functions times a smooth cutoff, with a distance transform that depends on the (unordered) pair of elements"""
    def __init__(s, rc, tuple_, zs): s.rc, s.tuple_, s.n = rc, tuple_, 3
    def basis(s, r, za, zb):
        r = np.asarray(r, dtype=np.float64 if np.asarray(r).dtype == np.float64 else np.float32).astype(np.float64)
        t = 1.0 + 0.07 * math.sqrt(za * zb) / 10 + 0.03 * math.log(za + zb)
        x = r / s.rc; y = s.rc * x ** t if False else r * (1 + 0.1 * (t - 1) * x)
        b = np.concatenate([np.sin((k + 1) * math.pi * y / s.rc) / np.maximum(y, 1e-300) for k in range(s.n)], axis=1) * math.sqrt(2 / s.rc)
        p = 5
        c = 1 - (p + 1) * (p + 2) / 2 * x ** p + p * (p + 2) * x ** (p + 1) - p * (p + 1) / 2 * x ** (p + 2)
        return b * c * (x < 1)
    def __call__(s, edge_lengths, node_attrs, edge_index, atomic_numbers):
        nz = np.asarray(atomic_numbers); at = np.asarray(node_attrs); ei = np.asarray(edge_index).reshape(2, -1)
        za, zb = int(nz[at[ei[0, 0]].argmax()]), int(nz[at[ei[1, 0]].argmax()])
        b = s.basis(edge_lengths, za, zb).view(Tensor)
        return (b, None) if s.tuple_ else b
class TP:
    """conv_tp: paths sorted by output degree; uvu with arbitrary real coupling tensors"""
    def __init__(s, S, K, Lmax):
        paths = [(l, l1, l2) for l2 in range(Lmax + 1) for l1 in range(LMAX + 1) for l in range(abs(l1 - l2), min(l1 + l2, LMAX) + 1) if (l + l1 + l2) % 2 == 0]
        paths.sort(key=lambda p: p[0]); s.paths, s.K, s.Lmax = paths, K, Lmax
        s.instructions = [NS(i_in1=l2, i_in2=l1, i_out=i, connection_mode="uvu", has_weight=True) for i, (l, l1, l2) in enumerate(paths)]
        s.irreps_out = Irreps([(K, NIR[l]) for l, _, _ in paths]); s.irreps_in1 = Irreps([(K, NIR[l]) for l in range(Lmax + 1)]); s.irreps_in2 = Irreps([(1, NIR[l]) for l in range(LMAX + 1)])
        s.C = []
        for (l, l1, l2) in paths:
            c = np.asarray(S(2 * l + 1, 2 * l1 + 1, 2 * l2 + 1)).astype(np.float64); d = np.asarray(S(*c.shape)); s.C.append(c * (np.abs(d) > 0.4))
    def __call__(s, H, Y, R):
        H, Y, R = (np.asarray(q, dtype=np.float64)[0] for q in (H, Y, R)); K = s.K; out = []
        for p, ((l, l1, l2), C) in enumerate(zip(s.paths, s.C)):
            o = l2 * l2 * K; h = H[o:o + K * (2 * l2 + 1)].reshape(K, 2 * l2 + 1); y = Y[l1 * l1:(l1 + 1) ** 2]
            out.append((np.einsum("mab,a,kb->km", C, y, h) * R[p * K:(p + 1) * K, None]).reshape(-1))
        return np.concatenate(out)[None].view(Tensor)
class Model:
    def __init__(s, spec):
        S = Seq(spec["seed"]); zs = spec["zs"]; N = len(zs); K = spec["K"]; L = spec["L"]; nh = len(spec.get("heads", ["default"]))
        s.spec = spec
        if "heads" in spec: s.heads = list(spec["heads"])
        s.atomic_numbers = np.array(zs, dtype=np.int64).view(Tensor); s.r_max = np.array(spec.get("rc", 4.0)).view(Tensor)
        s.spherical_harmonics = NS(_lmax=spec.get("lmax", LMAX))
        ae = 2 * np.asarray(S(nh, N)).astype(np.float64); s.atomic_energies_fn = NS(atomic_energies=(ae if spec.get("ae2d", True) or nh > 1 else ae[0]).view(Tensor))
        sc, sh = np.abs(np.asarray(S(nh))) + 0.5, np.asarray(S(nh)); s.scale_shift = NS(scale=sc.view(Tensor), shift=sh.view(Tensor))
        s.node_embedding = NS(linear=lin(S, Irreps([(N, NIR[0])]), Irreps([(K, NIR[0])])))
        s.radial_embedding = Radial(float(s.r_max), spec.get("tuple", False), zs)
        irY = Irreps([(1, NIR[l]) for l in range(LMAX + 1)]); irK = Irreps([(K, NIR[l]) for l in range(LMAX + 1)]); irL = Irreps([(K, NIR[l]) for l in range(L + 1)])
        B0 = {True: blocks.RealAgnosticDensityInteractionBlock, False: blocks.RealAgnosticInteractionBlock}[spec.get("d0", False)]
        B1 = {True: blocks.RealAgnosticDensityResidualInteractionBlock, False: blocks.RealAgnosticResidualInteractionBlock}[spec.get("d1", False)]
        b0 = B0(linear_up=lin(S, f"{K}x0e", f"{K}x0e"), conv_tp_weights=MLP(S, 3, (LMAX + 1) * K), density_fn=Density(S, 3, 1), linear=lin(S, irK, irK), avg_num_neighbors=spec.get("avg0", 7.5),
                skip_tp=Skip([S(K, N, K) for l in range(LMAX + 1)]))
        tp = TP(S, K, L)
        up = lin(S, irL, irL); up.weight = (np.asarray(up.weight) + np.concatenate([2.5 * np.eye(K).reshape(-1)] * (L + 1))).astype(np.float32).view(Tensor)
        b1 = B1(linear_up=up, conv_tp=tp, conv_tp_weights=MLP(S, 3, len(tp.paths) * K), density_fn=Density(S, 3, 1), linear=lin(S, tp.irreps_out, irK), avg_num_neighbors=spec.get("avg1", 5.25),
                skip_tp=Skip([S(K, N, K)]))
        s.interactions = [b0, b1]
        def prod(Ls):
            cs = [NS(correlation=3, weights=[S(N, U_matrix(irY, NIR[l], 2)[1].shape[-1], K), S(N, U_matrix(irY, NIR[l], 1)[1].shape[-1], K)], weights_max=S(N, U_matrix(irY, NIR[l], 3)[1].shape[-1], K)) for l in Ls]
            io = Irreps([(K, NIR[l]) for l in Ls]); return NS(symmetric_contractions=NS(irreps_in=irK, irreps_out=io, contractions=cs), linear=lin(S, io, io))
        s.products = [prod(range(L + 1)), prod([0])]
        s.readouts = [NS(linear=lin(S, f"{K}x0e", f"{nh}x0e")), NS(linear_1=lin(S, f"{K}x0e", "16x0e"), linear_2=lin(S, "16x0e", f"{nh}x0e"), non_linearity=NS(acts=[NS(cst=1.6790 if spec['seed'] % 2 else 1.45)]))]
        if spec.get("zbl"):
            z = radial.ZBLBasis() if spec["zbl"] is True else radial.OtherRepulsion()
            z.a_exp, z.a_prefactor, z.p = np.array(0.31 if spec["seed"] % 4 else 0.26).view(Tensor), np.array(0.4543 if spec["seed"] % 4 else 0.51).view(Tensor), np.array(6 if spec["seed"] % 4 else 5).view(Tensor)
            z.c = np.array([0.1818, 0.5099, 0.2802, 0.02817]).view(Tensor); z.covalent_radii = np.array([0.25 + 0.02 * k + 0.2 * (1 + gen(k)) for k in range(119)]).view(Tensor)
            s.pair_repulsion = True; s.pair_repulsion_fn = z
        elif spec.get("zbl") is False: s.pair_repulsion = False
        if spec.get("layers", 2) == 1: s.interactions = s.interactions[:1]; s.products = s.products[:1]
        if spec.get("layers", 2) == 3: s.interactions = s.interactions + [copy.copy(b1)]; s.products = s.products + [s.products[1]]
        if spec.get("bad") == "swap": s.interactions = [B1(**b1.__dict__), b1]
        if spec.get("bad") == "first": s.interactions[0] = blocks.AgnosticNonlinearInteractionBlock(**b0.__dict__)
        if spec.get("bad") == "second": s.interactions[1] = blocks.RealAgnosticAttResidualInteractionBlock(**b1.__dict__)
        if spec.get("bad") == "second-is-first-type": s.interactions[1] = B0(**b1.__dict__)
        if spec.get("bad") == "rank": w = np.asarray(up.weight).copy(); w[:K] = 0; up.weight = w.view(Tensor)
        s.dtype = np.dtype("float32")
    def parameters(s): return iter([s.node_embedding.linear.weight])
    def eval(s): return s
    def state_dict(s): return {}
    def float(s): return s.to(np.float32)
    def double(s): return s.to(np.float64)
    def cpu(s): return s
    def to(s, *a, **k):
        d = next((np.dtype(x) for x in list(a) + list(k.values()) if not isinstance(x, str)), None)
        if d is None: return s
        seen = set()
        def conv(o):
            if id(o) in seen: return o
            if isinstance(o, Tensor): return o.astype(d).view(Tensor) if o.dtype.kind == "f" else o
            if isinstance(o, (list, dict)) or hasattr(o, "__dict__"):
                seen.add(id(o))
                it = enumerate(o) if isinstance(o, list) else (o if isinstance(o, dict) else o.__dict__).items()
                for k, v in list(it):
                    w = conv(v)
                    if isinstance(o, (list, dict)): o[k] = w
                    else: o.__dict__[k] = w
            return o
        conv(s); s.dtype = d
        return s
    # ---- the model's own definition of per-atom energies -------------------------------------------------------------
    def energies(s, types, edges, Yfun, head=0):
        """types: indices into atomic_numbers; edges: (i, j, D) meaning j is a neighbour of i with D = x_j - x_i"""
        A = lambda x: np.asarray(x, dtype=np.float64)
        n = len(types); N = len(s.atomic_numbers); K = s.spec["K"]; L = s.spec["L"]; z = [int(q) for q in s.atomic_numbers]; rc = float(s.r_max); nh = len(s.spec.get("heads", ["default"]))
        b0, b1 = s.interactions; sK = math.sqrt(K)
        E0 = np.atleast_2d(A(s.atomic_energies_fn.atomic_energies))[head]; sc, sh = float(A(s.scale_shift.scale).reshape(-1)[head]), float(A(s.scale_shift.shift).reshape(-1)[head])
        emb = A(s.node_embedding.linear.weight).reshape(N, K)[types] / math.sqrt(N)
        up0 = emb @ A(b0.linear_up.weight).reshape(K, K) / sK
        geo = []
        for (i, j, D) in edges:
            r = np.linalg.norm(D)
            bs = s.radial_embedding.basis(np.array([[r]]), z[types[i]], z[types[j]])
            geo.append((i, j, r, Yfun(LMAX, D)[:, 0], bs))
        nlm = (LMAX + 1) ** 2
        msg = np.zeros((n, nlm, K)); dens = np.zeros(n)
        for (i, j, r, Y, bs) in geo:
            R = A(b0.conv_tp_weights(bs))[0].reshape(LMAX + 1, K)
            for l in range(LMAX + 1): msg[i, l * l:(l + 1) ** 2] += Y[l * l:(l + 1) ** 2, None] * (R[l] * up0[j])[None]
            dens[i] += math.tanh(float(A(b0.density_fn(bs))[0, 0]) ** 2)
        den = (dens + 1) if "Density" in type(b0).__name__ else np.full(n, float(b0.avg_num_neighbors))
        A0 = np.zeros_like(msg)
        for i in range(n):
            for l in range(LMAX + 1):
                t = msg[i, l * l:(l + 1) ** 2] @ A(b0.linear.weight_view_for_instruction(l)) / sK / den[i]
                A0[i, l * l:(l + 1) ** 2] = t @ A(b0.skip_tp.ws[l])[:, types[i], :] / math.sqrt(N * K)
        irY = Irreps([(1, NIR[l]) for l in range(LMAX + 1)])
        def contract(prod, x, Ls):   # x: n, nlm, K
            out = []
            for q, l in enumerate(Ls):
                c = prod.symmetric_contractions.contractions[q]; W = [None, A(c.weights[1]), A(c.weights[0]), A(c.weights_max)]
                res = np.zeros((n, 2 * l + 1, K))
                for corr in (1, 2, 3):
                    U = A(U_matrix(irY, NIR[l], corr)[1]); U = U[None] if l == 0 else U
                    for i in range(n):
                        a = x[i]
                        if corr == 1: t = np.einsum("mae,ak->mek", U, a)
                        if corr == 2: t = np.einsum("mabe,ak,bk->mek", U, a, a)
                        if corr == 3: t = np.einsum("mabek,bk->maek", np.einsum("mabce,ck->mabek", U, a), a); t = np.einsum("maek,ak->mek", t, a)
                        res[i] += np.einsum("mek,ek->mk", t, W[corr][types[i]])
                w = A(prod.linear.weight).reshape(len(Ls), K, K)[q]; out.append(np.einsum("nmk,kj->nmj", res, w) / sK)
            return np.concatenate(out, axis=1)
        F1 = contract(s.products[0], A0, range(L + 1))
        pair = np.zeros(n)
        if getattr(s, "pair_repulsion", False):
            zb = s.pair_repulsion_fn; c = A(zb.c); ce = [-3.2, -0.9423, -0.4028, -0.2016]; p = int(A(zb.p)); cr = A(zb.covalent_radii)
            for (i, j, r, Y, bs) in geo:
                u, v = z[types[i]], z[types[j]]; a = float(A(zb.a_prefactor)) * 0.529 / (u ** float(A(zb.a_exp)) + v ** float(A(zb.a_exp))); rm = cr[u] + cr[v]
                if r < rm:
                    x = r / rm; env = 1 - (p + 1) * (p + 2) / 2 * x ** p + p * (p + 2) * x ** (p + 1) - p * (p + 1) / 2 * x ** (p + 2)
                    pair[i] += 0.5 * 14.3996 * u * v / r * sum(c[k] * math.exp(ce[k] * r / a) for k in range(4)) * env
        ro1 = F1[:, 0, :] @ A(s.readouts[0].linear.weight).reshape(K, nh)[:, head] / sK
        skip = np.array([F1[i, 0, :] @ A(b1.skip_tp.ws[0])[:, types[i], :] for i in range(n)]) / math.sqrt(N * K)
        up = np.concatenate([F1[:, l * l:(l + 1) ** 2, :] @ A(b1.linear_up.weight).reshape(L + 1, K, K)[l] / sK for l in range(L + 1)], axis=1)
        tp = b1.conv_tp; msg = [np.zeros((n, 2 * p[0] + 1, K)) for p in tp.paths]; dens = np.zeros(n)
        for (i, j, r, Y, bs) in geo:
            R = A(b1.conv_tp_weights(bs))[0].reshape(len(tp.paths), K)
            for p, ((l, l1, l2), C) in enumerate(zip(tp.paths, tp.C)):
                msg[p][i] += np.einsum("mab,a,bk->mk", C, Y[l1 * l1:(l1 + 1) ** 2], up[j, l2 * l2:(l2 + 1) ** 2]) * R[p][None]
            dens[i] += math.tanh(float(A(b1.density_fn(bs))[0, 0]) ** 2)
        den = (dens + 1) if "Density" in type(b1).__name__ else np.full(n, float(b1.avg_num_neighbors))
        A1 = np.zeros((n, nlm, K)); ne = [sum(1 for p in tp.paths if p[0] == l) for l in range(LMAX + 1)]
        for p, (l, l1, l2) in enumerate(tp.paths):
            w = A(b1.linear.weight_view_for_instruction(p)) / math.sqrt(ne[l] * K)
            A1[:, l * l:(l + 1) ** 2] += (msg[p] @ w) / den[:, None, None]
        F2 = contract(s.products[1], A1, [0])[:, 0, :] + skip
        h = F2 @ A(s.readouts[1].linear_1.weight).reshape(K, 16) / sK; h = s.readouts[1].non_linearity.acts[0].cst * h / (1 + np.exp(-h))
        ro2 = h @ A(s.readouts[1].linear_2.weight).reshape(16, nh)[:, head] / 4.0
        return np.array([E0[types[i]] + sh + sc * (pair[i] + ro1[i] + ro2[i]) for i in range(n)])
def remove_pt_head(model, head=None):
    hs = model.heads
    if head is None: head = next(h for h in hs if h != "pt_head")
    if head not in hs: raise ValueError(f"Head {head} not found in model")
    q = hs.index(head); K = model.spec["K"]; nh = len(hs); m = copy.deepcopy(model); m.heads = [head]
    m.spec = dict(model.spec, heads=[head])
    m.atomic_energies_fn.atomic_energies = m.atomic_energies_fn.atomic_energies[q:q + 1]; m.scale_shift.scale = m.scale_shift.scale[q:q + 1]; m.scale_shift.shift = m.scale_shift.shift[q:q + 1]
    r = m.readouts[0].linear; w = np.asarray(r.weight).reshape(K, nh)[:, q].copy().view(Tensor); m.readouts[0].linear = Linear(f"{K}x0e", "1x0e"); m.readouts[0].linear.weight = w
    r = m.readouts[1].linear_2; w = np.asarray(r.weight).reshape(16, nh)[:, q].copy().view(Tensor); m.readouts[1].linear_2 = Linear("16x0e", "1x0e"); m.readouts[1].linear_2.weight = w
    return m
MAGIC = b"PK\x03\x04\x00\x00\x08\x08"      # torch files are zip archives
def save(path, **spec):
    with open(path, "wb") as f: f.write(MAGIC + pickle.dumps(spec))
def load(path):
    with open(path, "rb") as f:
        if f.read(len(MAGIC)) != MAGIC: raise pickle.UnpicklingError("Invalid magic number; corrupt file?")
        return Model(pickle.load(f))
