"""C24: the extraction command over every combination of its options.  usage: clix.py SHARD NSHARDS SCRATCH"""
import sys, os, itertools, json, logging, io, contextlib, shutil
logging.disable(logging.CRITICAL)
import ph, fakemace, torch
from ase.data import chemical_symbols
import symmetrix.cli.extract_mace as cli
from symmetrix.extract_mace_data import extract_mace_data
shard, nsh, scratch = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
root = f"{scratch}/cli{shard}"; os.makedirs(root + "/models"); work = root + "/work"
ZS = [1, 6, 8]
fakemace.save(root + "/models/plain.model", seed=3, zs=ZS, K=1, L=0)
fakemace.save(root + "/models/heads.model", seed=4, zs=ZS, K=1, L=0, heads=["pt_head", "alpha", "beta"])
fakemace.save(root + "/models/bad.model", seed=3, zs=ZS, K=1, L=0, layers=1)
NAMES = [("mod.model", "mod"), ("noext", "noext"), ("a.b.model", "a.b"), ("mod-256.pt", "mod-256"), ("sub/inner.model", "inner"), ("ABS/abs.model", "abs")]
_want = {}
def want(kind, elems, head):
    k = (kind, tuple(elems), head)
    torch.set_default_dtype(torch.float32)      # each command is a process of its own
    if k not in _want: _want[k] = json.loads(json.dumps(extract_mace_data(f"{root}/models/{kind}.model", list(elems), **({} if head is None else dict(head=head)))))
    return _want[k]
def fresh():
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work + "/sub"); os.makedirs(work + "/out"); os.chdir(work)
def tree():
    return {os.path.relpath(os.path.join(d, f), work) for d, _, fs in os.walk(work) for f in fs}
def call(argv):
    torch.set_default_dtype(torch.float32)
    sys.argv = ["symmetrix_extract_mace"] + argv; o, e = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e): r = cli.main()
        return 0 if r is None else r
    except SystemExit as x: return x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
    except KeyboardInterrupt: raise
    except BaseException as x: return repr(x)
def model_path(name, kind):
    p = name.replace("ABS/", root + "/models/"); t = p if os.path.isabs(p) else work + "/" + p
    shutil.copy(f"{root}/models/{kind}.model", t); return p
ELEMS = [()] + [e for n in (1, 2, 3) for e in itertools.permutations(ZS, n)]
q = 0
def mine():
    global q
    q += 1; return q % nsh == shard
# --- accepted combinations ----------------------------------------------------------------------------------------------------
for (name, stem), kind, el, sym, out in itertools.product(NAMES, ("plain", "heads"), ELEMS, (0, 1), (None, "given.json", "out/other name.dat", "old.json")):
    if not el and sym: continue
    if not ph.THOROUGH and name != "mod.model" and (len(el) == 3 or out in ("out/other name.dat", "given.json")): continue
    for head in ([None] if kind == "plain" and not ph.THOROUGH else [None, "alpha", "beta"]):
        if head is not None and not ph.THOROUGH and name not in ("mod.model", "noext"): continue
        if not mine(): continue
        fresh(); mp = model_path(name, kind); before = tree()
        if out == "old.json": open("old.json", "w").write("x" * 5_000_000); before.add("old.json")
        oM, oE, oH, oO = (["-m", "--model"][q % 2], (["-s", "--chemical-symbols"] if sym else ["-Z", "-z", "--atomic-numbers"])[q // 2 % (2 if sym else 3)], ["-H", "--head"][q // 3 % 2], ["-o", "--output"][q // 5 % 2])
        groups = [[oM, mp]]
        if el: groups.append([oE] + [chemical_symbols[z] if sym else str(z) for z in el])
        if head is not None: groups.append([oH, head])
        if out is not None: groups.append([oO, out])
        k = q % len(groups); argv = [a for g in groups[k:] + groups[:k] for a in g]
        rc = call(argv); ph.states += 1; ph.transitions += 1; ph.traces += 1
        new = tree() - before
        if rc != 0: ph.viol("cli:refused", f"{argv} ended with {rc}"); continue
        if out is not None:
            target = out
            if new - {out}: ph.viol("cli:extra-files", f"{argv} created {sorted(new)}")
        elif el:
            sp = [chemical_symbols[z] if sym else str(z) for z in el]; target = f"{stem}-{'-'.join(sorted(sp))}.json"      # these elements sort alike as text and as numbers
            if sym and sorted(sp) != [chemical_symbols[z] for z in sorted(el)]:
                alt = f"{stem}-{'-'.join(chemical_symbols[z] for z in sorted(el))}.json"     # "sorted" symbols: alphabetical or by atomic number
                if new == {alt}: target = alt
            if new != {target}: ph.viol("cli:default-name", f"{argv} created {sorted(new)}, expected {target}"); continue
        else:
            if len(new) != 1 or not list(new)[0].endswith(".json") or not list(new)[0].startswith(stem + "-"): ph.viol("cli:default-name-all", f"{argv} created {sorted(new)}"); continue
            target = list(new)[0]
        try: got = json.load(open(target))
        except Exception as x: ph.viol("cli:invalid-json", f"{argv} wrote {target} that does not parse: {x!r}"); continue
        if got != want(kind, el or ZS, head): ph.viol("cli:content", f"{argv} wrote {target} with content other than the extractor's result")
        if q < 4 * nsh: ph.sample(f"{argv} -> {target}")
# --- refused combinations -----------------------------------------------------------------------------------------------------
REF = []
for o in ([], ["-o", "res.json"], ["-o", "keep.json"]):
    for zz, ss in itertools.product((["-Z", "1"], ["-z", "1", "8"], ["--atomic-numbers", "6"]), (["-s", "H"], ["-s", "O", "H"], ["--chemical-symbols", "C"])):
        REF += [("conflict", ["-m", "mod.model"] + zz + ss + o), ("conflict", zz + ["-m", "mod.model"] + ss + o), ("conflict", ss + zz + ["-m", "mod.model"] + o)]
    for el in ([], ["-Z", "1"], ["-s", "H", "O"]):
        REF += [("no-model", el + o), ("absent-model", ["-m", "absent.model"] + el + o), ("absent-model", ["-m", "sub/absent"] + el + o), ("unsupported", ["-m", "bad.model"] + el + o), ("unknown-head", ["-m", "heads.model", "-H", "gamma"] + el + o)]
    for el in (["-Z", "2"], ["-Z", "1", "7"], ["-s", "N"], ["-s", "H", "Xx"], ["-Z", "zzz"]): REF += [("unknown-element", ["-m", "mod.model"] + el + o)]
for what, argv in REF:
    if not mine(): continue
    fresh()
    for a, b in (("mod", "plain"), ("heads", "heads"), ("bad", "bad")): shutil.copy(f"{root}/models/{b}.model", f"{work}/{a}.model")
    open("keep.json", "w").write("precious"); before = tree(); rc = call(argv); ph.states += 1; ph.transitions += 1; ph.traces += 1
    if rc == 0: ph.viol(f"cli:accepted:{what}", f"{argv} was accepted")
    if tree() != before: ph.viol(f"cli:wrote:{what}", f"{argv} created {sorted(tree() - before)}")
    elif open("keep.json").read() != "precious": ph.viol(f"cli:clobbered:{what}", f"{argv} failed but overwrote the existing output file")
os.chdir(scratch); shutil.rmtree(root)
ph.finish()
