"""C23: extraction from (stand-in) Torch MACE models.  usage: extractx.py MODE ARG SCRATCH
MODE energy I : model variant I (all structures of every element subset; all orders and spellings of the subset)
MODE refuse 0 : unsupported models must be refused"""
import sys, os, itertools, json, math, logging
logging.disable(logging.CRITICAL)
import numpy as np
import ph, fakemace, models
from ase.data import chemical_symbols
from symmetrix.symmetrix import MACE
from symmetrix.extract_mace_data import extract_mace_data
mode, arg, scratch = sys.argv[1], int(sys.argv[2]), sys.argv[3]
P = np.array([[0.05, 0.1, -0.1], [0.62, 0.35, 0.15], [-0.4, 1.5, 0.7], [1.9, -0.8, 1.1], [-2.6, 0.3, -1.9]])
SPECS = json.load(open(os.environ["SPECS"]))
TOL = {48: 2e-3, 192: 2e-5, 256: 1e-5, 768: 5e-6}      # relative; the radii are tabulated in single precision, so about 1e-7 remains
def ser(d): return json.dumps(d, sort_keys=True)
def edges(pos, rc):
    return [(i, j, pos[j] - pos[i]) for i in range(len(pos)) for j in range(len(pos)) if i != j and np.linalg.norm(pos[j] - pos[i]) < rc]
def evaluate(ev, types, E, n):
    nn = [0] * n
    for e in E: nn[e[0]] += 1
    ev.compute_node_energies_forces(n, list(types), nn, [e[1] for e in E], [types[e[1]] for e in E], np.array([e[2] for e in E], float).reshape(-1), np.array([np.linalg.norm(e[2]) for e in E], float))
    return np.array(ev.node_energies)[:n]
def energy(I):
    spec = SPECS[I]; f = f"{scratch}/m{I}.model"; fakemace.save(f, **{k: v for k, v in spec.items() if k not in ("head", "old")})
    head = spec.get("head"); heads = spec.get("heads", [None])
    hi = heads.index(head) if head else next(i for i, h in enumerate(heads) if h != "pt_head" or len(heads) == 1)
    ref = fakemace.load(f).to(np.float64); zs = spec["zs"]
    kw = {} if head is None else dict(head=head)
    subsets = [s for n in range(1, len(zs) + 1) for s in itertools.combinations(sorted(zs), n)]
    if not ph.THOROUGH: subsets = subsets[:len(zs)] + [s for s in subsets[len(zs):] if len(s) == 2 or len(s) == len(zs)]
    if len(zs) > 4: subsets = [s for s in subsets if len(s) in (1, len(zs)) or s in ((1, 79), (26, 29))] + [tuple(sorted(zs)[1:]), tuple(sorted(zs)[:-1])]
    full = None
    for sub in subsets:
        base = extract_mace_data(f, list(sub), num_spline_points=48, **kw); js = ser(base); ph.states += 1
        if base["atomic_numbers"] != list(sub): ph.viol("extract:elements", f"asked for {sub}, got {base['atomic_numbers']} (model {spec})")
        if len(sub) == len(zs): full = js
        # every order x spelling of the same subset is the same model
        for order in (itertools.permutations(sub) if len(sub) <= 4 else (sub[::-1], sub[5:] + sub[:5])):
            for spell in itertools.product((0, 1, 2), repeat=len(sub)) if len(sub) <= 2 else [(0,) * len(sub), (1,) * len(sub), (2,) * len(sub), tuple(k % 3 for k in range(len(sub)))]:
                if tuple(order) == sub and not any(spell): continue
                if len(order) > 2 and not ph.THOROUGH and any(spell) and order != sub[::-1]: continue
                arg = [(z, chemical_symbols[z], str(z))[q] for z, q in zip(order, spell)]
                ph.transitions += 1
                try: d = extract_mace_data(f, arg, num_spline_points=48, **kw)
                except Exception as x: ph.viol("extract:spelling", f"species={arg!r} refused: {x!r} (model {spec})"); continue
                if ser(d) != js: ph.viol("extract:order", f"species={arg!r} gives a different model than {sub} (model {spec})")
        pts = (48, 192, 768) if len(sub) == len(zs) or ph.THOROUGH else (256,)
        evs = []
        for n in pts:
            d = base if n == 48 else extract_mace_data(f, list(sub), num_spline_points=n, **kw)
            p = f"{scratch}/e{I}.json"; json.dump(d, open(p, "w")); evs.append((n, MACE(p))); os.remove(p)
        err = {n: 0.0 for n in pts}; res = []; g = 0.0; bare = fakemace.load(f).to(np.float64); bare.pair_repulsion = False; iso = {z: bare.energies([zs.index(z)], [], models.Y, hi)[0] for z in sub}
        for m in range(1, 4 if len(sub) <= 4 else 3):
            for idx in itertools.combinations(range(len(P)), m):
                if len(sub) > 4 and m == 2 and sum(idx) % 3: continue
                for ty in itertools.product(range(len(sub)), repeat=m):
                    if m == 3 and len(sub) > 2 and not ph.THOROUGH and (sum(ty) + sum(idx)) % 3: continue
                    if len(set(ty)) < len(sub) and len(sub) > 1 and m >= len(sub): continue     # covered by the smaller subset
                    pos = P[list(idx)]; E = edges(pos, float(ref.r_max)); z = [zs.index(sub[t]) for t in ty]
                    want = ref.energies(z, E, models.Y, hi); ph.traces += 1
                    if getattr(ref, "pair_repulsion", False) and ref.pair_repulsion: geo = bare.energies(z, E, models.Y, hi)
                    else: geo = want
                    g = max(g, max(abs(w - iso[sub[t]]) for w, t in zip(geo, ty)))
                    for n, ev in evs: res.append((n, idx, ty, want, evaluate(ev, ty, E, m))); ph.transitions += 1
        for n, idx, ty, want, got in res:      # errors are measured against the size of the structure-dependent part
            e = np.abs(got - want).max() - 1e-12 * np.abs(want).max(); e = max(0.0, e) / g if np.isfinite(e) else float("inf"); err[n] = max(err[n], e)
            if not e <= TOL[n]:
                ph.viol("extract:energy:n%d" % n, f"energies {got.tolist()} from the extracted model, {want.tolist()} from the original; Z={[sub[t] for t in ty]} positions={P[list(idx)].tolist()} elements={sub} spline points={n} model={spec}")
        for a, b in zip(pts, pts[1:]):
            if not err[b] <= err[a] / 4 + 1e-6: ph.viol("extract:resolution", f"worst error {err[a]:.3g} with {a} spline points, {err[b]:.3g} with {b} (elements {sub}, model {spec})")
        ph.sample(f"g={g:.3g} model {spec} elements {sub}: worst error " + ", ".join(f"{n} points {e:.2g}" for n, e in err.items()))
    # no element named: everything the model has
    for a in ((), (None,), ([],)):
        if a == (): d = extract_mace_data(f, num_spline_points=48, **kw)
        else: d = extract_mace_data(f, a[0], num_spline_points=48, **kw)
        ph.transitions += 1
        if full is not None and ser(d) != full: ph.viol("extract:default-elements", f"species={a!r} does not give the whole model {spec}")
    # all heads, by name
    if len(heads) > 1:
        for q, h in enumerate(heads):
            d = extract_mace_data(f, list(zs), head=h); p = f"{scratch}/h{I}.json"; json.dump(d, open(p, "w")); ev = MACE(p); ph.transitions += 1
            ty = [k % len(zs) for k in range(3)]; E = edges(P[:3], float(ref.r_max)); sz = sorted(zs)
            want = ref.energies([zs.index(sz[t]) for t in ty], E, models.Y, q); got = evaluate(ev, ty, E, 3)
            if not np.abs(got - want).max() <= TOL[256] * g + 1e-12 * np.abs(want).max(): ph.viol("extract:head", f"head {h!r}: {got.tolist()} instead of {want.tolist()} (model {spec})")
        try: extract_mace_data(f, list(zs), head="no such head"); ph.viol("extract:unknown-head", f"unknown head accepted (model {spec})")
        except Exception: pass
    for bad in (["Xx"], [zs[0], "Qq"], [99], ["Es", zs[0]], [-1], ["-1"], [0], [1.5] if False else [118]):
        ph.transitions += 1
        try: extract_mace_data(f, bad, num_spline_points=48, **kw); ph.viol("extract:unknown-species", f"species {bad!r} accepted (model {spec})")
        except Exception: pass
def refuse():
    k = dict(seed=5, zs=[1, 8], K=2, L=1)
    bads = [dict(layers=1), dict(layers=3), dict(bad="swap"), dict(bad="first"), dict(bad="second"), dict(bad="second-is-first-type"), dict(bad="rank"), dict(zbl="other")] + [dict(lmax=l) for l in (0, 1, 2, 4, 5)]
    for b in bads:
        for v in itertools.product((False, True), repeat=2):
            for L in (0, 1, 2):
                for sp in ([1, 8], [8], None):
                    f = f"{scratch}/bad.model"; fakemace.save(f, **{**k, **dict(d0=v[0], d1=v[1], L=L), **b}); ph.states += 1; ph.transitions += 1
                    try: extract_mace_data(f, sp, num_spline_points=24)
                    except Exception: ph.traces += 1; continue
                    ph.viol("extract:unsupported:%s" % "-".join(f"{a}={c}" for a, c in b.items()), f"unsupported model {b} (density {v}, L={L}) was converted")
    # the same family without the defect is accepted
    for v in itertools.product((False, True), repeat=2):
        f = f"{scratch}/good.model"; fakemace.save(f, **{**k, **dict(d0=v[0], d1=v[1])}); extract_mace_data(f, [1, 8], num_spline_points=24)
    ph.sample("refused: " + ", ".join(map(str, bads)))
energy(arg) if mode == "energy" else refuse()
ph.finish()
