"""Numpy-backed stand-in for the part of the torch interface a model extractor needs (torch is absent here)."""
import builtins, sys, types
import numpy as np
float64 = double = np.dtype("float64"); float32 = float = np.dtype("float32"); int64 = long = np.dtype("int64"); int32 = np.dtype("int32"); bool = np.dtype("bool")
dtype = np.dtype
_default = float32
class Tensor(np.ndarray):
    def numpy(self, force=False): return np.ndarray.view(self, np.ndarray)   # shares memory, as torch does
    def unsqueeze(self, d): return np.expand_dims(self, d if d >= 0 else self.ndim + 1 + d).view(Tensor)
    def squeeze(self, dim=None):
        if dim is None: return np.squeeze(np.asarray(self)).view(Tensor)
        return np.squeeze(np.asarray(self), dim).view(Tensor) if self.shape[dim] == 1 else self
    def detach(self): return self
    def cpu(self): return self
    def clone(self): return self.copy()
    def contiguous(self): return self
    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            try: return self.astype(np.dtype(x)).view(Tensor)
            except TypeError: pass
        return self
    def type(self, d=None): return self.to(d)
    def double(self): return self.astype(np.float64).view(Tensor)
    def view_as(self, o): return self.reshape(o.shape)
    def size(self, d=None): return self.shape if d is None else self.shape[d]
    def numel(self): return int(np.prod(self.shape))
    def dim(self): return self.ndim
    def permute(self, *a): return np.transpose(np.asarray(self), a[0] if len(a) == 1 and not isinstance(a[0], builtins.int) else a).view(Tensor)
    def abs(self): return np.abs(self)
    def tanh(self): return np.tanh(self)
    def pow(self, p): return self ** p
    def sqrt(self): return np.sqrt(self)
    def t(self): return self.T
    def matmul(self, o): return self @ o
    mm = bmm = matmul
    def float(self): return self.astype(np.float32).view(Tensor)
    def int(self): return self.astype(np.int32).view(Tensor)
    def long(self): return self.astype(np.int64).view(Tensor)
    def bool(self): return self.astype(np.bool_).view(Tensor)
    def square(self): return self * self
    def exp(self): return np.exp(self)
    def log(self): return np.log(self)
    def sin(self): return np.sin(self)
    def cos(self): return np.cos(self)
    def norm(self): return np.linalg.norm(self)
    def add(self, o): return self + o
    def sub(self, o): return self - o
    def mul(self, o): return self * o
    def div(self, o): return self / o
    def neg(self): return -self
    def ndimension(self): return self.ndim
    def nelement(self): return int(np.prod(self.shape))
    def is_floating_point(self): return self.dtype.kind == "f"
    def transpose(self, *a):
        if len(a) == 2 and self.ndim >= 2 and all(isinstance(x, (builtins.int, np.integer)) for x in a): return np.swapaxes(np.asarray(self), *a).view(Tensor)
        return np.transpose(np.asarray(self), *a).view(Tensor)
    def expand(self, *a): s = _shape(a); s = tuple(self.shape[i - len(s)] if x == -1 else x for i, x in enumerate(s)); return np.broadcast_to(np.asarray(self), s).view(Tensor)
    def repeat(self, *a, **k): return np.tile(np.asarray(self), _shape(a)).view(Tensor)
    def flatten(self, start_dim=0, end_dim=-1):
        if isinstance(start_dim, str): return np.ndarray.flatten(self, start_dim)
        n = self.ndim
        if n == 0: return self.reshape(1)
        a, b = start_dim % n, end_dim % n
        return np.array(self).reshape(self.shape[:a] + (-1,) + self.shape[b + 1:]).view(Tensor)
    def new_zeros(self, *a, **k): return np.zeros(_shape(a), dtype=self.dtype).view(Tensor)
    def new_ones(self, *a, **k): return np.ones(_shape(a), dtype=self.dtype).view(Tensor)
    def nonzero(self, as_tuple=False):
        r = np.nonzero(np.asarray(self)); return tuple(x.view(Tensor) for x in r) if as_tuple else np.stack(r, axis=-1).view(Tensor)
    def narrow(self, d, i, n): return self[(slice(None),) * d + (slice(i, i + n),)]
    def select(self, d, i): return self[(slice(None),) * d + (i,)]
    def unbind(self, dim=0): return tuple(np.moveaxis(np.asarray(self), dim, 0).view(Tensor))
    def split(self, n, dim=0):
        L = self.shape[dim]; c = list(range(n, L, n)) if isinstance(n, builtins.int) else list(np.cumsum(n)[:-1])
        return tuple(x.view(Tensor) for x in np.split(np.asarray(self), c, axis=dim))
    def requires_grad_(self, *a): return self
    def fill_(self, v): self[...] = v; return self
    def zero_(self): self[...] = 0; return self
    def copy_(self, o): self[...] = o; return self
    def div_(self, o): self /= o; return self
    def mul_(self, o): self *= o; return self
    def add_(self, o): self += o; return self
    @property
    def mT(self): return np.swapaxes(np.asarray(self), -1, -2).view(Tensor)
    @property
    def is_cuda(self): return False
    def index_select(self, d, i): return np.take(self, np.asarray(i), axis=d).view(Tensor)
    def view(self, *a):
        if a and isinstance(a[0], builtins.type): return np.ndarray.view(self, *a)
        if a and isinstance(a[0], (builtins.int, np.integer, tuple, list)): return self.reshape(*a)
        return np.ndarray.view(self, *a)
    @property
    def requires_grad(self): return False
    @property
    def device(self): return "cpu"
    @property
    def data_(self): return self
def _red(name):
    f = getattr(np.ndarray, name)
    def g(self, dim=None, keepdim=False, axis=None, **k):
        r = f(np.asarray(self), axis=dim if axis is None else axis, **({"keepdims": True} if keepdim and name != "cumsum" else {}), **{a: b for a, b in k.items() if a in ("out", "dtype")})
        return np.asarray(r).view(Tensor)
    setattr(Tensor, name, g)
for _n in ("sum", "mean", "prod", "any", "all", "argmax", "argmin", "cumsum", "max", "min"): _red(_n)
def _t(x, d=None): return np.array(x, dtype=d).view(Tensor)
def tensor(x, dtype=None, **k):
    a = np.array(x)
    if dtype is None and a.dtype == np.float64 and not isinstance(x, np.ndarray): dtype = _default
    return _t(a, dtype)
as_tensor = tensor
def from_numpy(x): return np.asarray(x).view(Tensor)
def _shape(a): return tuple(a[0]) if len(a) == 1 and not isinstance(a[0], (builtins.int, np.integer)) else tuple(a)
def zeros(*a, dtype=None, **k): return np.zeros(_shape(a), dtype=dtype or _default).view(Tensor)
def ones(*a, dtype=None, **k): return np.ones(_shape(a), dtype=dtype or _default).view(Tensor)
def eye(n, m=None, dtype=None, **k): return np.eye(n, m, dtype=dtype or _default).view(Tensor)
def arange(*a, dtype=None, **k): return _t(np.arange(*a), dtype)
def linspace(a, b, steps, dtype=None, **k): return _t(np.linspace(a, b, steps), dtype or _default)
def atleast_1d(x): return np.atleast_1d(np.asarray(x)).view(Tensor)
def reshape(x, s): return np.reshape(np.asarray(x), s).view(Tensor)
def tanh(x): return np.tanh(x)
def cat(ts, dim=0): return np.concatenate([np.asarray(t) for t in ts], axis=dim).view(Tensor)
concat = cat
def unsqueeze(x, d): return x.unsqueeze(d)
def squeeze(x, *a): return x.squeeze(*a)
def flatten(x, *a, **k): return x.flatten(*a, **k)
def transpose(x, a, b): return x.transpose(a, b)
def permute(x, a): return x.permute(a)
def numel(x): return x.numel()
def nonzero(x, as_tuple=False): return x.nonzero(as_tuple)
def index_select(x, d, i): return x.index_select(d, i)
def from_dlpack(x): return x
def full(s, v, dtype=None, **k): return np.full(s, v, dtype=dtype or _default).view(Tensor)
def empty(*a, dtype=None, **k): return zeros(*a, dtype=dtype)
def zeros_like(x, dtype=None, **k): return np.zeros(x.shape, dtype=dtype or x.dtype).view(Tensor)
def ones_like(x, dtype=None, **k): return np.ones(x.shape, dtype=dtype or x.dtype).view(Tensor)
empty_like = zeros_like
def mm(a, b): return a @ b
bmm = matmul = mm
def inverse(x): return np.linalg.inv(np.asarray(x)).view(Tensor)
linalg = types.SimpleNamespace(inv=inverse, matrix_rank=lambda x: tensor(np.linalg.matrix_rank(np.asarray(x))), norm=lambda x: np.linalg.norm(np.asarray(x)), solve=lambda a, b: np.linalg.solve(np.asarray(a), np.asarray(b)).view(Tensor))
sys.modules["torch.linalg"] = linalg
def get_default_dtype(): return _default
def set_default_dtype(d):
    global _default
    _default = np.dtype(d)
def device(x): return x
def is_tensor(x): return isinstance(x, Tensor)
class no_grad:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f
inference_mode = enable_grad = no_grad
serialization = types.ModuleType("torch.serialization"); serialization.add_safe_globals = lambda x: None
sys.modules["torch.serialization"] = serialization
def load(f, map_location=None, weights_only=None, **k):
    import fakemace
    return fakemace.load(f)
nn = types.ModuleType("torch.nn"); nn.Module = object; sys.modules["torch.nn"] = nn
cuda = types.SimpleNamespace(is_available=lambda: False)
def manual_seed(x): pass
def __getattr__(name):
    if name.startswith("__"): raise AttributeError(name)
    f = getattr(np, name)
    def g(*a, **k):
        if "dim" in k: k["axis"] = k.pop("dim")
        if "keepdim" in k: k["keepdims"] = k.pop("keepdim")
        k.pop("device", None)
        r = f(*a, **k)
        return r.view(Tensor) if isinstance(r, np.ndarray) else r
    return g
