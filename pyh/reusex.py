"""C22: histories of one ASE calculator, construction and conversion.
usage: reusex.py hist MODEL SHARD NSHARDS [kokkos dtype] | reusex.py build MODEL SCRATCH [kokkos]"""
import sys, os, itertools, json, logging, pathlib
logging.disable(logging.CRITICAL)
import numpy as np
import ph
from ase import Atoms
from ase.calculators.calculator import PropertyNotImplementedError
from symmetrix import Symmetrix
mode, model = sys.argv[1], sys.argv[2]
def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max() if b.size else 1)))
QUERIES = {"energy": lambda a: a.get_potential_energy(), "forces": lambda a: a.get_forces(), "stress": lambda a: a.get_stress(), "energies": lambda a: a.get_potential_energies()}
def hist(shard, nsh, kokkos, dtype):
    kw = dict(use_kokkos=kokkos, dtype=dtype); tol = 1e-9 if dtype == "float64" else 1e-4
    Z = list(Symmetrix(model, **kw).evaluator.atomic_numbers)
    class Counting(Symmetrix):
        n = 0
        def calculate(self, *a, **k): self.n += 1; return Symmetrix.calculate(self, *a, **k)
    pool = Symmetrix(model, **kw); fresh_cache = {}
    def key(a): return (a.numbers.tobytes(), a.positions.tobytes(), a.cell.array.tobytes(), a.pbc.tobytes())
    def expected(a):
        k = key(a)
        if k not in fresh_cache:
            b = Atoms(numbers=a.numbers.copy(), positions=a.positions.copy(), cell=a.cell.array.copy(), pbc=a.pbc.copy()); b.calc = Symmetrix(model, **kw); r = {}
            for q, f in QUERIES.items():
                try: r[q] = f(b)
                except PropertyNotImplementedError: r[q] = None
                except ValueError: r[q] = "refused"
            fresh_cache[k] = r
        return fresh_cache[k]
    # operations on (structures s = [A, B], index of the current one)
    def start():
        A = Atoms(numbers=[Z[0], Z[-1], Z[0]], positions=[[0.1, 0.2, 0.3], [1.2, 0.4, -0.1], [0.3, 1.5, 0.9]], cell=np.diag([4.1, 4.3, 4.7]), pbc=True)
        B = Atoms(numbers=[Z[-1], Z[0]], positions=[[0, 0, 0], [0.9, 0.3, 0.2]])
        return [A, B]
    def move(s, c): a = s[c]; p = a.positions.copy(); p[-1, 0] += 0.125; a.set_positions(p)
    def tiny(s, c): s[c].positions[0, 2] += 1e-7
    def species(s, c): a = s[c]; z = a.numbers.copy(); z[0] = Z[(Z.index(z[0]) + 1) % len(Z)] if z[0] in Z else Z[0]; a.set_atomic_numbers(z)
    def alien(s, c): a = s[c]; z = a.numbers.copy(); z[-1] = 118 if z[-1] != 118 else Z[0]; a.set_atomic_numbers(z)
    def cell(s, c): a = s[c]; a.set_cell(np.array(a.cell.array) * 1.05 if a.cell.rank == 3 else np.diag([5.0, 4.0, 6.0]), scale_atoms=False)
    def nocell(s, c): s[c].set_cell(np.zeros((3, 3))); s[c].set_pbc(False)
    def pbc(s, c): a = s[c]; p = a.pbc.copy(); p[0] = (not p[0]) and a.cell.rank == 3; a.set_pbc(p)
    def cnt(): cnt.n += 1; return cnt.n
    def append(s, c): s[c] += Atoms(numbers=[Z[0]], positions=[[-0.7 - 0.4 * cnt(), 0.6 + 0.5 * cnt.n, 1.1 + 0.45 * cnt.n]])
    def lone(s, c): s[c] += Atoms(numbers=[Z[-1]], positions=[[40.0 * cnt() + 40.0, 0.6, 1.1]])
    def delete(s, c):
        if len(s[c]) > 1: del s[c][0]
    def swap(s, c): a = s[c]; s[c] = a[list(range(len(a)))[::-1]]
    def edge(s, c):      # a neighbour crosses the cutoff by a small step
        a = s[c]; rc = pool.cutoff
        if len(a) and c == 1: a.positions[-1] = a.positions[0] + [0, 0, rc + (0.004 if abs(np.linalg.norm(a.positions[-1] - a.positions[0]) - rc + 0.004) < 1e-6 else -0.004)] if len(a) > 1 else a.positions[-1]
        elif len(a) > 1: a.positions[-1, 1] += 0.02
    def mirror(s, c): s[c].positions[:, 0] *= -1
    OPS = dict(edge=edge, mirror=mirror, move=move, tiny=tiny, species=species, alien=alien, cell=cell, nocell=nocell, pbc=pbc, append=append, lone=lone, delete=delete, swap=swap, other=None, nothing=lambda s, c: None)
    names = list(OPS); depth = 4 if ph.THOROUGH else 3; q = 0
    if not ph.THOROUGH: names3 = [n for n in names if n not in ("tiny", "pbc", "swap", "edge", "mirror")]
    seqs = itertools.chain(*[itertools.product(names, repeat=d) for d in range(1, depth)], itertools.product(names if ph.THOROUGH else names3, repeat=depth))
    def check(calc, atoms, query, hname):
        want = expected(atoms)[query]; ph.transitions += 1; n0 = calc.n
        try: got = QUERIES[query](atoms)
        except PropertyNotImplementedError: got = None
        except Exception as x:
            if isinstance(want, str): return n0, None
            ph.viol("reuse:raises", f"{query}: {x!r} after {hname}"); return n0, None
        if isinstance(want, str): ph.viol("reuse:alien-accepted", f"{query} returned {got!r} for an element the model lacks after {hname}"); return n0, None
        if (got is None) != (want is None) or (got is not None and not close(got, want, tol)): ph.viol(f"reuse:{query}", f"got {got!r}, a new calculator gives {want!r} after {hname}")
        return n0, got
    for seq in seqs:
        q += 1
        if q % nsh != shard: continue
        ph.states += 1; ph.traces += 1
        calc = Counting(model, **kw) if not kokkos or q % 8 == shard % 8 else None
        if calc is None: calc = shared_counting if (shared_counting := globals().get("_sc")) else globals().setdefault("_sc", Counting(model, **kw))
        s = start(); c = 0; cnt.n = 0
        for a in s: a.calc = calc
        held = []
        for step, op in enumerate(("nothing",) + seq):
            if op == "other": c = 1 - c
            else:
                OPS[op](s, c)
                if s[c].calc is not calc: s[c].calc = calc
            hname = f"history {seq[:step]} (structure {c}, Z={s[c].numbers.tolist()})"
            order = list(QUERIES); k = (q + step) % 4; order = order[k:] + order[:k]
            for qi, query in enumerate(order if step == len(seq) else order[:2]):
                n0, got = check(calc, s[c], query, hname)
                if isinstance(expected(s[c])[query], np.ndarray) and isinstance(got, np.ndarray): held.append((got, got.copy(), hname))
                # asked again with nothing changed: the same, and not recomputed
                if expected(s[c])[query] is not None and not isinstance(expected(s[c])[query], str):
                    n1 = calc.n; QUERIES[query](s[c])
                    if calc.n != n1: ph.viol("reuse:recomputed", f"asking {query} twice computed twice after {hname}")
                    if calc.n > n0 + 1: ph.viol("reuse:recomputed", f"asking {query} computed {calc.n - n0} times after {hname}")
        for arr, copy, h in held:
            if not np.array_equal(arr, copy): ph.viol("reuse:aliased", f"a result handed out at {h} changed during later calculations {seq}")
        if q < 40 and q % 13 == 0: ph.sample(f"history {seq}: final energies {expected(s[c])['energies']}")
def build(scratch, kokkos):
    import fakemace, torch
    from symmetrix.extract_mace_data import extract_mace_data
    import symmetrix.symmetrix as ext
    have = hasattr(ext, "MACEKokkos"); tmp = scratch + "/tmpdir"; os.makedirs(tmp, exist_ok=True); os.environ["TMPDIR"] = tmp
    import tempfile; tempfile.tempdir = tmp
    def clean(what):
        if os.listdir(tmp): ph.viol("build:leftover", f"{what} left {os.listdir(tmp)} in the temporary directory"); [os.remove(f"{tmp}/{x}") for x in os.listdir(tmp)]
    # precision / back end: all combinations
    for dtype, uk in itertools.product(("float64", "float32", "float16", "double", "", None, "FLOAT64"), (True, False)):
        ph.states += 1; ph.transitions += 1
        ok = dtype in ("float64", "float32") and (have if uk else dtype == "float64")
        try: Symmetrix(model, dtype=dtype, use_kokkos=uk); r = True
        except Exception as x: r = False; msg = str(x)
        if r != ok: ph.viol("build:options", f"dtype={dtype!r} use_kokkos={uk} (Kokkos {'built in' if have else 'not built in'}) was {'accepted' if r else 'refused'}")
        elif not r and not msg.strip(): ph.viol("build:message", f"dtype={dtype!r} use_kokkos={uk} refused without a message")
    for m in (model, pathlib.Path(model)): Symmetrix(m, use_kokkos=kokkos); clean(repr(m)); ph.transitions += 1
    open(scratch + "/broken.json", "w").write('{"num_channels": 2,'); open(scratch + "/empty.json", "w")
    for bad in ("/absent.json", "/absent.model", "/broken.json", "/empty.json"):
        ph.transitions += 1
        try: Symmetrix(scratch + bad, use_kokkos=kokkos); ph.viol("build:bad-file", f"{bad} was accepted")
        except Exception: pass
        clean(bad)
    # conversion on the fly
    ZS = [1, 6, 8]; pos = np.array([[0.05, 0.1, -0.1], [1.0, 0.35, 0.15], [-0.4, 1.5, 0.7], [1.9, -0.8, 1.1]])
    for kind, spec in (("plain", dict(seed=3, zs=ZS, K=2, L=1)), ("heads", dict(seed=4, zs=ZS, K=1, L=0, heads=["pt_head", "alpha", "beta"], d0=True, d1=True))):
        f = f"{scratch}/{kind}.model"; fakemace.save(f, **spec)
        for sp, head, n in itertools.product((None, [1, 8], ["O", "H"], [8], "all", ("C",)), (None, "alpha", "beta") if kind == "heads" else (None,), (None, 20, 90)):
            kwx = {k: v for k, v in dict(species=list(ZS) if sp == "all" else sp, head=head, num_spline_points=n).items() if v is not None}
            torch.set_default_dtype(torch.float32); d = extract_mace_data(f, **kwx); els = d["atomic_numbers"]
            j = scratch + "/conv.json"; json.dump(d, open(j, "w"))
            torch.set_default_dtype(torch.float32); ph.states += 1; ph.transitions += 2; ph.traces += 1
            try: a = Symmetrix(f if n != 20 else pathlib.Path(f), use_kokkos=kokkos, **kwx)
            except Exception as x: ph.viol("build:convert", f"{kind} model with {kwx} refused: {x!r}"); continue
            clean(f"conversion of {kind} with {kwx}"); b = Symmetrix(j, use_kokkos=kokkos)
            if list(a.evaluator.atomic_numbers) != list(b.evaluator.atomic_numbers): ph.viol("build:convert-elements", f"{kind} {kwx}: {a.evaluator.atomic_numbers} instead of {b.evaluator.atomic_numbers}"); continue
            for m in (1, 2, 4):
                for ty in itertools.product(els, repeat=m) if m < 4 else [tuple(els[k % len(els)] for k in range(4))]:
                    at = Atoms(numbers=ty, positions=pos[:m]); at.calc = a; ea, fa = at.get_potential_energies(), at.get_forces(); at.calc = b; eb, fb = at.get_potential_energies(), at.get_forces(); ph.transitions += 1
                    if not (close(ea, eb, 1e-13) and close(fa, fb, 1e-13)): ph.viol("build:convert-differs", f"{kind} model with {kwx}: energies {ea} converted on the fly, {eb} from the extractor's file; Z={ty}")
            # elements the (converted) model lacks, at every place, also far away; afterwards the calculator still works
            good = Atoms(numbers=[els[0]] * 2, positions=pos[:2]); good.calc = a; e0 = good.get_potential_energy()
            for alien in [z for z in (1, 6, 8, 26, 118) if z not in els]:
                for where in range(3):
                    for far in (0.0, 50.0):
                        z = [els[0]] * 3; z[where] = alien; p = pos[:3].copy(); p[where] += far; at = Atoms(numbers=z, positions=p); at.calc = a; ph.transitions += 1
                        for _ in range(2):
                            for qn, qf in QUERIES.items():
                                if qn == "stress": continue
                                try: r = qf(at); ph.viol("build:alien", f"Z={z} accepted by a model of {els}: {qn}={r!r}")
                                except Exception: pass
                        if good.get_potential_energy() != e0: ph.viol("build:alien-spoils", f"energy of a good structure changed after Z={z} was refused")
        for kwx in (dict(species=[2]), dict(species=["Xx"])) + ((dict(head="gamma"),) if kind == "heads" else ()):
            ph.transitions += 1
            try: Symmetrix(f, use_kokkos=kokkos, **kwx); ph.viol("build:convert-bad", f"{kind} model with {kwx} was accepted")
            except Exception: pass
            clean(f"{kwx}")
    fakemace.save(scratch + "/bad.model", seed=3, zs=ZS, K=1, L=0, layers=1)
    try: Symmetrix(scratch + "/bad.model", use_kokkos=kokkos); ph.viol("build:unsupported", "a one-layer Torch model was accepted")
    except Exception: pass
if mode == "hist": hist(int(sys.argv[3]), int(sys.argv[4]), len(sys.argv) > 5 and sys.argv[5] == "kokkos", sys.argv[6] if len(sys.argv) > 6 else "float64")
else: build(sys.argv[3], len(sys.argv) > 4)
ph.finish()
