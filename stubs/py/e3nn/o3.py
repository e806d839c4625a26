"""Stand-in for the few e3nn classes used by the extractor."""
import re, collections
import numpy as np
from torch import Tensor
class Irrep(tuple):
    def __new__(cls, l, p=None):
        if isinstance(l, Irrep): return l
        if isinstance(l, str): p = 1 if l[-1] == "e" else -1; l = int(l[:-1])
        elif isinstance(l, tuple): l, p = l
        return tuple.__new__(cls, (l, p))
    l = property(lambda s: s[0]); p = property(lambda s: s[1]); dim = property(lambda s: 2 * s[0] + 1)
    def __repr__(self): return f"{self.l}{'e' if self.p == 1 else 'o'}"
class _Mul(tuple):
    mul = property(lambda s: s[0]); ir = property(lambda s: s[1]); dim = property(lambda s: s[0] * s[1].dim)
class Irreps(tuple):
    def __new__(cls, x=()):
        out = []
        if isinstance(x, Irreps): return x
        if isinstance(x, Irrep): out = [(1, x)]
        elif isinstance(x, str):
            for t in x.split("+"):
                t = t.strip()
                if not t: continue
                m = re.fullmatch(r"(?:(\d+)x)?(\d+[eo])", t); out.append((int(m.group(1) or 1), Irrep(m.group(2))))
        else:
            for t in x:
                if isinstance(t, str): out += list(Irreps(t))
                elif isinstance(t, Irrep): out.append((1, t))
                else: out.append((t[0], Irrep(t[1])))
        return tuple.__new__(cls, [_Mul(t) for t in out])
    def count(self, ir): ir = Irrep(ir); return sum(m for m, i in self if i == ir)
    def simplify(self):
        out = []
        for m, i in self:
            if out and out[-1][1] == i: out[-1] = (out[-1][0] + m, i)
            elif m: out.append((m, i))
        return Irreps(out)
    lmax = property(lambda s: max(i.l for _, i in s)); dim = property(lambda s: sum(m * i.dim for m, i in s)); num_irreps = property(lambda s: sum(m for m, _ in s))
    ls = property(lambda s: [i.l for m, i in s for _ in range(m)])
    def __repr__(self): return "+".join(f"{m}x{i}" for m, i in self)
    def __add__(self, o): return Irreps(list(self) + list(Irreps(o)))
    def __contains__(self, ir): return any(i == Irrep(ir) for _, i in self)
    def slices(self):
        o, r = 0, []
        for m, i in self: r.append(slice(o, o + m * i.dim)); o += m * i.dim
        return r
    def __getitem__(self, k): r = tuple.__getitem__(self, k); return Irreps(r) if isinstance(k, slice) else r
_Ins = collections.namedtuple('Instruction', 'i_in i_out path_shape')
class Linear:
    """o3.Linear: one weight block [mul_in, mul_out] per (input entry, output entry) of the same irrep, in that order"""
    def __init__(self, irreps_in, irreps_out, **k):
        self.irreps_in, self.irreps_out = Irreps(irreps_in), Irreps(irreps_out)
        self.instructions = [_Ins(a, b, (mi, mo)) for a, (mi, i) in enumerate(self.irreps_in) for b, (mo, o) in enumerate(self.irreps_out) if i == o]
        self.weight_numel = sum(x[2][0] * x[2][1] for x in self.instructions); self.weight = np.zeros(sum(x[2][0] * x[2][1] for x in self.instructions)).view(Tensor); self.bias = np.zeros(0).view(Tensor)
    def weight_view_for_instruction(self, n, weight=None):
        w = self.weight if weight is None else weight
        o = sum(x[2][0] * x[2][1] for x in self.instructions[:n]); s = self.instructions[n][2]
        return np.asarray(w).reshape(-1)[o:o + s[0] * s[1]].reshape(s).view(Tensor)
    def weight_views(self, weight=None, yield_instruction=False):
        for n, ins in enumerate(self.instructions):
            v = self.weight_view_for_instruction(n, weight); yield (n, ins, v) if yield_instruction else v
def wigner_3j(*a, **k): raise NotImplementedError("stand-in")
