"""C25: every exported call x every argument x every representation of the same numbers.  usage: bindx.py MODEL SHARD NSHARDS [kokkos]"""
import sys, itertools, array
import numpy as np
import ph
import symmetrix.symmetrix as S
model, shard, nsh = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); kokkos = len(sys.argv) > 4
q = 0
def mine():
    global q
    q += 1; return q % nsh == shard
# --- representations of one rectangular block of numbers ---------------------------------------------------------------------
def strided(a, step):
    b = np.full(tuple(n * abs(step) + 3 for n in a.shape), 97, dtype=a.dtype); v = b
    for ax in range(a.ndim):
        sl = [slice(None)] * a.ndim; n = a.shape[ax]; sl[ax] = slice(1, 1 + n * abs(step), abs(step)); v = v[tuple(sl)]
        if step < 0: sl[ax] = slice(None, None, -1); v = v[tuple(sl)]
    v[...] = a; return v
def unaligned(a):
    raw = np.zeros(a.nbytes + 1, dtype=np.uint8); v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape); v[...] = a; return v
def readonly(a): b = a.copy(); b.flags.writeable = False; return b
def reps(val, integral):
    """val: nested list; yields (name, object) with numerically equal contents"""
    base = np.array(val, dtype=np.int64 if integral else np.float64); out = []
    def tup(x): return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x
    out += [("list", val), ("tuple", tup(val))]
    dts = (["i8", "i4", "i2", "i1", "u1", "u2", "u4", "u8", ">i8", ">i4", ">i2"] if integral else ["f8", "f4", "f2", "g", ">f8", ">f4"])
    for d in dts:
        with np.errstate(all="ignore"): a = base.astype(d)
        if not np.array_equal(a.astype(base.dtype), base): continue
        out += [(d, a), (d + " strided 2", strided(a, 2)), (d + " reversed", strided(a, -1)), (d + " strided -3", strided(a, -3)), (d + " unaligned", unaligned(a)), (d + " readonly", readonly(a)),
                (d + " fortran", np.asfortranarray(a)), (d + " byteswapped back", a.byteswap().view(a.dtype.newbyteorder()))]
        if a.ndim == 1:
            out += [(d + " column", np.repeat(a[:, None], 3, axis=1)[:, 1]), (d + " broadcastless view", a[None, :][0])]
            if len(a) and np.all(a == a[0]): out += [(d + " stride 0", np.broadcast_to(a[0], a.shape))]
        else: out += [(d + " transposed twice", np.ascontiguousarray(a.T).T)]
    if base.ndim == 1 and base.size: out += [("array.array", array.array("q" if integral else "d", val)), ("list of numpy scalars", [base.dtype.type(x) for x in val]), ("list of float32", [np.float32(x) for x in val]) if not integral and np.array_equal(base.astype("f4"), base) else ("list", val)]
    if base.ndim == 2: out += [("list of arrays", [np.array(x) for x in val]), ("list of strided arrays", [strided(np.array(x, dtype=base.dtype), 2) for x in val]), ("list of tuples", [tuple(x) for x in val])]
    return out
def shapes2d(val):
    """for flat coordinate triples: the same numbers as an (n,3) block in several memory orders"""
    a = np.array(val, dtype=float).reshape(-1, 3)
    return [("(n,3)", a), ("(n,3) fortran", np.asfortranarray(a)), ("(n,3) strided", strided(a, 2)), ("(n,3) reversed", strided(a, -1)), ("(n,3) of (3,n).T", np.ascontiguousarray(a.T).T), ("(n,3) >f8", a.astype(">f8")), ("(n,3) f4 fortran", np.asfortranarray(a.astype("f4"))) if np.array_equal(a.astype("f4"), a) else ("(n,3)", a)]
def flat(x):
    if isinstance(x, (float, int, complex, np.number, bool, str)) or x is None: return [x]
    return [z for y in x for z in flat(y)] + [len(x)]
def snapshot(x):
    if isinstance(x, np.ndarray):
        b = x
        while isinstance(b.base, np.ndarray): b = b.base
        return ("nd", b.tobytes(), b.shape)
    if isinstance(x, array.array): return ("aa", x.tobytes())
    if isinstance(x, (list, tuple)): return (type(x).__name__, [snapshot(y) for y in x])
    return x
def same(a, b): return len(a) == len(b) and all((x == y) or (isinstance(x, (float, complex)) and abs(x - y) <= 1e-12 * (1 + abs(y))) for x, y in zip(a, b))
def trial(what, fn, args, ai, name, obj, want):
    """calls fn with argument ai replaced; must equal want; obj must be left alone"""
    ph.states += 1; ph.transitions += 1; ph.traces += 1
    a = list(args); a[ai] = obj; before = snapshot(obj)
    try: got = flat(fn(*a))
    except TypeError as x: ph.viol(f"bind:{what}:refused", f"{what} argument {ai} as {name} refused: {x!r}"); return
    except Exception as x: ph.viol(f"bind:{what}:raises", f"{what} argument {ai} as {name}: {x!r}"); return
    if not same(got, want): ph.viol(f"bind:{what}:differs", f"{what} argument {ai} as {name}: {got[:8]} instead of {want[:8]}")
    if snapshot(obj) != before: ph.viol(f"bind:{what}:modified", f"{what} modified its argument {ai} passed as {name}")
def vary(what, fn, args, kinds, must=("list",)):
    """kinds[i]: None (scalar), 'i' / 'd' vectors or blocks, 'x' coordinate triples"""
    want = flat(fn(*args))
    for ai, k in enumerate(kinds):
        if k is None: continue
        R = reps(args[ai], k == "i") + (shapes2d(args[ai]) if k == "x" and len(args[ai]) else [])
        for name, obj in R:
            if mine(): trial(what, fn, args, ai, name, obj, want)
    # all arguments in the same unusual representation
    table = [dict(reps(a, k == "i")) if k else None for a, k in zip(args, kinds)]
    for suffix in ("strided 2", "reversed", "strided -3", "unaligned", "readonly", "fortran"):
        for di, df in (("i8", "f8"), ("i4", "f8"), (">i4", ">f8"), ("i2", "f4")):
            if not mine(): continue
            a = [x if t is None else t.get(f"{di if k == 'i' else df} {suffix}", x) for x, t, k in zip(args, table, kinds)]
            ph.states += 1; ph.transitions += 1; ph.traces += 1
            try: got = flat(fn(*a))
            except TypeError as x: ph.viol(f"bind:{what}:refused", f"{what} with all arguments {suffix} {di}/{df} refused: {x!r}"); continue
            if not same(got, want): ph.viol(f"bind:{what}:differs", f"{what} with all arguments {suffix} {di}/{df}: {got[:8]} instead of {want[:8]}")
# scalars in every numeric type
def vary_scalars(what, fn, args, idx, integral):
    want = flat(fn(*args))
    for ai in idx:
        v = args[ai]; c = [np.float64(v), np.float32(v), np.longdouble(v)] if not integral else [np.int64(v), np.int32(v), np.int16(v), np.uint8(v) if v >= 0 else v, np.uint64(v) if v >= 0 else v]
        if float(v) == int(v) and not integral: c += [int(v), np.int32(int(v))]
        for obj in c:
            if float(obj) == float(v) and mine(): trial(what, fn, args, ai, type(obj).__name__, obj, want)
K = "Kokkos" if kokkos else ""
# --- building blocks -----------------------------------------------------------------------------------------------------------
vals, ders = [0.5, -1.25, 2.0, 0.75], [1.0, 0.25, -0.5, 3.0]
for cls in ["CubicSpline"] + (["CubicSplineKokkos"] if kokkos else []):
    C = getattr(S, cls)
    vary(cls, lambda h, v, d: [[C(h, v, d).evaluate(r)] + list(C(h, v, d).evaluate_deriv(r)) for r in (0.0, 0.3, 1.1)], [0.5, vals, ders], [None, "d", "d"])
    sp = C(0.5, vals, ders); vary_scalars(cls + ".evaluate", lambda r: sp.evaluate(r), [1.0], [0], False); vary_scalars(cls + ".evaluate_deriv", lambda r: sp.evaluate_deriv(r), [1.0], [0], False)
V2, D2 = [[0.5, -1.25, 2.0], [1.5, 0.25, -3.0]], [[1.0, 0.5, 0.25], [-1.0, 2.0, 4.0]]
def fill(C, h, v, d): s = C(h, v, d); a, b, c = np.zeros(2), np.zeros(2), np.zeros(2); s.evaluate(0.375, a); s.evaluate_derivs(0.375, b, c); return [a, b, c]
for cls in ["CubicSplineSet"] + (["CubicSplineSetKokkos"] if kokkos else []): C = getattr(S, cls); vary(cls, lambda h, v, d: fill(C, h, v, d), [0.5, V2, D2], [None, "d", "d"])
W = [[0.5, -1.0, 0.25, 2.0, 1.5, -0.5], [1.0, -2.0, 0.5]]
vary("MultilayerPerceptron", lambda s, w, a: S.MultilayerPerceptron(s, w, a).evaluate([0.5, -1.0]), [[2, 3, 1], W, 1.5], ["i", None, None])
mlp = S.MultilayerPerceptron([2, 3, 2], [W[0], [1.0, -2.0, 0.5, 0.25, 3.0, -1.0]], 1.5)
for n, x in (("evaluate", [0.5, -1.0]), ("evaluate_gradient", [0.5, -1.0])): vary("MultilayerPerceptron." + n, getattr(mlp, n), [x], ["d"])
for n in ("evaluate_batch", "evaluate_gradient_batch"): vary("MultilayerPerceptron." + n, getattr(mlp, n), [[0.5, -1.0, 2.0, 0.25, -0.75, 1.0], 3], ["d", None])
MON = [[0], [0, 1], [1, 2, 2]]
vary("MultivariatePolynomial", lambda n, c, m: S.MultivariatePolynomial(n, c, m).evaluate([2.0, 3.0, 0.5]), [3, [1.5, -2.0, 4.0], MON], [None, "d", None])
poly = S.MultivariatePolynomial(3, [1.5, -2.0, 4.0], MON); P2 = S.MultivariatePolynomial(3, [1.5, -2.0], [[0, 1], [1, 2]])
vary("MultivariatePolynomial(monomials)", lambda n, c, m: S.MultivariatePolynomial(n, c, m).evaluate([2.0, 3.0, 0.5]), [3, [1.5, -2.0], [[0, 1], [1, 2]]], [None, "d", "i"])
for n in ("evaluate", "evaluate_simple", "evaluate_gradient", "evaluate_gradient_simple"): vary("MultivariatePolynomial." + n, getattr(poly, n), [[2.0, 3.0, 0.5]], ["d"])
vary("MultivariatePolynomial.evaluate_batch", poly.evaluate_batch, [[2.0, 3.0, 0.5, 1.0, -1.0, 0.25], 2], ["d", None])
zc, zr = [0.5, 0.25, 0.125, 0.125], [0.5 + 0.25 * (k % 4) for k in range(10)]
for cls in ["ZBL"] + (["ZBLKokkos"] if kokkos else []):
    C = getattr(S, cls); vary(cls, lambda a, b, c, r, p: [C(a, b, c, r, p).compute(1, 8, 0.5), C(a, b, c, r, p).compute_gradient(1, 8, 0.5)], [0.5, 0.25, zc, zr, 6], [None, None, "d", "d", None])
    z = C(0.5, 0.25, zc, zr, 6); vary_scalars(cls + ".compute", z.compute, [1, 8, 0.5], [0, 1], True); vary_scalars(cls + ".compute", z.compute, [1, 8, 0.5], [2], False)
for n in ("_partitions", "_two_part_partitions", "_permutations", "_combinations", "_sum"):
    if hasattr(S, n):
        try: getattr(S, n)([1, 2, 3]); vary(n, getattr(S, n), [[1, 2, 3]], ["i"])
        except TypeError: pass
for n, a in (("_product_repeat", [[1, 2, 3], 2]), ("_generate_indices", [[2, 3]])):
    try: getattr(S, n)(*a); vary(n, getattr(S, n), a, ["i"] + [None] * (len(a) - 1))
    except TypeError: pass
for n, a in (("sphericart_sph_harm", None), ("sphericart_real_sph_harm", None), ("sphericart_complex", None)):
    f = getattr(S, n, None)
    for a in ([[0.5, -1.0, 2.0, 1.0, 0.25, -0.75], 2], [2, [0.5, -1.0, 2.0, 1.0, 0.25, -0.75]], [[0.5, -1.0, 2.0]], [2, [[0.5, -1.0, 2.0], [1.0, 0.25, -0.75]]], [[[0.5, -1.0, 2.0], [1.0, 0.25, -0.75]], 2]):
        try: f(*a)
        except (TypeError, AttributeError): continue
        except Exception: continue
        vary(n, f, a, ["d" if isinstance(x, list) else None for x in a]); break
# --- output arrays ---------------------------------------------------------------------------------------------------------------
def outputs(n, want, dt=np.float64):
    """(name, object handed over, function returning the n leading values as the caller sees them, guard buffer)"""
    def mk(name, shape, view): 
        buf = np.full(shape, -777.0); v = view(buf); return name, v, buf
    L = [mk("exact", (n + 4,), lambda b: b[2:2 + n]), mk("longer", (n + 9,), lambda b: b[2:2 + n + 5]), mk("strided", (3 * n + 6,), lambda b: b[2:2 + 2 * n:2]), mk("reversed", (n + 4,), lambda b: b[2:2 + n][::-1]),
         mk("column", (n + 4, 3), lambda b: b[2:2 + n, 1]), mk("row", (3, n + 4), lambda b: b[1, 2:2 + n]), mk("zero stride", (4,), lambda b: np.lib.stride_tricks.as_strided(b[1:2], (n,), (0,)))]
    for k in range(n): L.append(mk(f"short {k}", (n + 4,), lambda b, k=k: b[2:2 + k]))
    for d in ("f4", "i8", "i4", ">f8", "c16", "g", "?"): b = np.zeros(n + 4, dtype=d); b[...] = 1; L.append((d, b[2:2 + n], b))
    b = np.full(n + 4, -777.0); v = b[2:2 + n]; v.flags.writeable = False; L.append(("readonly", v, b))
    raw = np.zeros(8 * n + 17, dtype=np.uint8); v = raw[1:1 + 8 * n].view(np.float64); L.append(("unaligned", v, raw))
    L += [("list", [0.0] * n, None), ("tuple", (0.0,) * n, None), ("array.array", array.array("d", [0.0] * n), None), ("2d row", np.full((1, n), -777.0), None), ("0d", np.array(-777.0), None), ("None", None, None)]
    return L
def seen(obj): return [float(np.real(x)) for x in (obj.flatten() if isinstance(obj, np.ndarray) else obj)] if obj is not None else []
def out_case(what, call, n, want):
    """call(obj): performs the call with the output array obj"""
    for name, obj, buf in outputs(n, want):
        if not mine(): continue
        ph.states += 1; ph.transitions += 1; ph.traces += 1
        before = None if obj is None else seen(obj); b0 = None if buf is None else buf.copy()
        try: call(obj)
        except Exception:
            ph.ex("outputs_refused")
            continue
        got = seen(obj)
        if len(got) < n or not same([float(x) for x in got[:n]], [float(x) for x in want]): ph.viol(f"bind:{what}:lost", f"{what} accepted an output array ({name}) but it contains {got[:n]} instead of {want}")
        if got[n:] != (before or [])[n:]: ph.viol(f"bind:{what}:overrun", f"{what} wrote past the {n} results in an output array ({name})")
        if buf is not None and isinstance(obj, np.ndarray) and obj.dtype == np.float64 and name != "unaligned":
            # everything of the buffer outside the view is untouched
            m = np.zeros(buf.shape, dtype=bool); 
            c = buf.copy(); t = np.full_like(buf, 0.0)
            obj2 = np.lib.stride_tricks.as_strided(t.reshape(-1)[(obj.__array_interface__["data"][0] - buf.__array_interface__["data"][0]) // 8:], obj.shape, obj.strides); obj2[...] = 1.0
            if not np.array_equal(buf[t == 0], b0[t == 0]): ph.viol(f"bind:{what}:elsewhere", f"{what} wrote outside the output array ({name})")
if True:
    V3, D3 = [[0.5, -1.25, 2.0], [1.5, 0.25, -3.0], [0.125, 4.0, 8.0]], [[1.0, 0.5, 0.25], [-1.0, 2.0, 4.0], [2.0, 0.5, -8.0]]
    for cls in ["CubicSplineSet"] + (["CubicSplineSetKokkos"] if kokkos else []):
        C = getattr(S, cls)
        for ns in (1, 2, 3):
            s = C(0.5, V3[:ns], D3[:ns]); one = [S.CubicSpline(0.5, V3[k], D3[k]) for k in range(ns)]
            for r in (0.0, 0.375, 0.5, 0.875):
                wv = [o.evaluate_deriv(r)[0] for o in one]; wd = [o.evaluate_deriv(r)[1] for o in one]
                out_case(cls + ".evaluate", lambda o: s.evaluate(r, o), ns, wv)
                out_case(cls + ".evaluate_derivs(values)", lambda o: s.evaluate_derivs(r, o, np.zeros(ns)), ns, wv)
                out_case(cls + ".evaluate_derivs(derivs)", lambda o: s.evaluate_derivs(r, np.zeros(ns), o), ns, wd)
if kokkos:
    pk = S.MultivariatePolynomialKokkos(3, [1.5, -2.0, 4.0], MON); x = [2.0, 3.0, 0.5]; f, g = poly.evaluate_gradient(x)
    for n in ("evaluate", "evaluate_simple"): vary("MultivariatePolynomialKokkos." + n, getattr(pk, n), [x], ["d"])
    for n in ("evaluate_gradient", "evaluate_gradient_simple"):
        def run(x, n=n): o = np.zeros(3); return [getattr(pk, n)(x, o), o]
        vary("MultivariatePolynomialKokkos." + n, run, [x], ["d"])
        def once(o, n=n):
            if isinstance(o, np.ndarray) and o.flags.writeable: o[...] = 0
            return getattr(pk, n)(x, o)
        for name, obj, buf in outputs(3, g):
            if not mine(): continue
            ph.states += 1; ph.transitions += 1; before = None if obj is None else seen(obj)
            try: once(obj)
            except Exception: ph.ex("outputs_refused"); continue
            if not same(seen(obj)[:3], [float(v) for v in g]): ph.viol(f"bind:MultivariatePolynomialKokkos.{n}:lost", f"{n} accepted an output array ({name}) but it contains {seen(obj)[:3]} instead of {g}")
    m1 = S.MultilayerPerceptron([2, 3, 1], W, 1.5); mk = S.MultilayerPerceptronKokkos([2, 3, 1], W, 1.5); X = [[0.5, -1.0], [2.0, 0.25], [-0.75, 1.0]]
    wf = [m1.evaluate(a)[0] for a in X]; wg = [m1.evaluate_gradient(a)[1] for a in X]
    def run(x): o = np.zeros(3); mk.evaluate(x, o); o2, o3 = np.zeros(3), np.zeros((3, 2)); mk.evaluate_gradient(x, o2, o3); return [o, o2, o3]
    vary("MultilayerPerceptronKokkos", run, [X], ["d"])
    out_case("MultilayerPerceptronKokkos.evaluate", lambda o: mk.evaluate(X, o), 3, wf)
    out_case("MultilayerPerceptronKokkos.evaluate_gradient(f)", lambda o: mk.evaluate_gradient(X, o, np.zeros((3, 2))), 3, wf)
    for name, G in (("exact", np.zeros((3, 2))), ("fortran", np.asfortranarray(np.zeros((3, 2)))), ("f4", np.zeros((3, 2), "f4")), ("strided", np.zeros((6, 4))[::2, ::2]), ("narrow", np.zeros((3, 1))), ("short", np.zeros((2, 2))), ("flat", np.zeros(6)), ("list", [[0.0, 0.0]] * 3), (">f8", np.zeros((3, 2), ">f8"))):
        if not mine(): continue
        ph.states += 1; ph.transitions += 1
        try: mk.evaluate_gradient(X, np.zeros(3), G)
        except Exception: ph.ex("outputs_refused"); continue
        if not same(flat(np.asarray(G, float).tolist()), flat(np.reshape(wg, (3, 2)).tolist())): ph.viol("bind:MultilayerPerceptronKokkos.evaluate_gradient:lost", f"gradient array ({name}) contains {np.asarray(G).tolist()} instead of {wg}")
# --- MACE: the evaluator and each of its stages ------------------------------------------------------------------------------------
types = [0, 1, 1]; nn = [2, 2, 2]; idx = [1, 2, 0, 2, 0, 1]; P = np.array([[0.0, 0.25, 0.5], [1.25, 0.5, -0.25], [0.5, -1.0, 1.0]])
D = np.array([P[j] - P[i] for i in range(3) for j in range(3) if i != j]); nt = [types[j] for j in idx]; xyz = D.flatten().tolist()
rr = np.linalg.norm(D, axis=1).tolist(); FIELDS = ["node_energies", "node_forces", "R0", "R1", "A0", "A0_adj", "M0", "M0_adj", "H1", "H1_adj", "Phi1", "Phi1_adj", "A1", "A1_adj", "M1", "M1_adj", "H2", "H2_adj"]
FULL = ["i", "i", "i", "i", "x", "d"]; ARGS = [types, nn, idx, nt, xyz, rr]
for cls in ["MACE"] + (["MACEKokkos", "MACEKokkosFloat"] if kokkos else []):
    C = getattr(S, cls); tol = cls.endswith("Float")
    if kokkos and not S._kokkos_is_initialized(): S._init_kokkos()
    ev = C(model)
    vary(cls + ".compute_node_energies_forces", lambda *a: (ev.compute_node_energies_forces(3, *a), list(ev.node_energies)[:3], list(ev.node_forces)[:18])[1:], ARGS, FULL)
    if tol: continue
    names = dict(t=types, n=nn, i=idx, y=nt, x=xyz, r=rr); kinds = dict(t="i", n="i", i="i", y="i", x="x", r="d")
    STAGES = [("compute_R0", "tnyr", ()), ("compute_R1", "tnyr", ()), ("compute_Y", "x", None), ("compute_A0", "tny", ()), ("compute_A0_scaled", "tnyr", ()), ("compute_M0", "t", ()), ("compute_H1", "", ()), ("compute_Phi1", "ni", ()), ("compute_A1", "", ()), ("compute_A1_scaled", "tnyr", ()), ("compute_M1", "t", ()),
              ("compute_H2", "t", ()), ("compute_readouts", "t", ()), ("reverse_H2", "t", (True,)), ("reverse_M1", "t", ()), ("reverse_A1_scaled", "tnyxr", ()), ("reverse_A1", "", ()), ("reverse_Phi1", "nixr", (False, False)), ("reverse_H1", "", ()), ("reverse_M0", "t", ()), ("reverse_A0_scaled", "tnyxr", ()), ("reverse_A0", "tnyxr", ())]
    def invoke(e, st, extra, a):
        f = getattr(e, st); return f(*a) if extra is None else f(3, *a, *extra)
    for k, (st, spec, extra) in enumerate(STAGES):
        if not spec or not hasattr(ev, st): continue
        def staged(*a):
            e = C(model); e.node_energies = np.zeros(3); e.node_forces = np.zeros(18)
            try:
                for st2, sp2, ex2 in STAGES[:k]: invoke(e, st2, ex2, [names[c] for c in sp2])
            except Exception as x: return ["prefix", repr(x)]
            invoke(e, st, extra, a)
            return [list(getattr(e, f)) for f in FIELDS]
        try: staged(*[names[c] for c in spec])
        except TypeError: ph.ex("stage_signature_changed"); continue
        vary(f"{cls}.{st}", staged, [names[c] for c in spec], [kinds[c] for c in spec])
ph.sample(f"representations of one argument, e.g.: {[n for n, _ in reps([1.0, 2.0], False)][:20]}")
ph.finish()
