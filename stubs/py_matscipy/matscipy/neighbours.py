"""Stand-in for matscipy.neighbours: the documented contract only - pairs grouped by ascending i (int32), no order promised within a group."""
import numpy as np
from ase.neighborlist import neighbor_list as _nl
def neighbour_list(quantities, atoms=None, cutoff=None, positions=None, cell=None, pbc=None, numbers=None, cell_origin=None):
    assert atoms is not None, "only the form neighbour_list(quantities, atoms, cutoff) is represented"
    i, j, d, D, S = _nl("ijdDS", atoms, cutoff)
    o = np.lexsort((-np.arange(len(i)), i)); r = dict(i=i[o].astype(np.int32), j=j[o].astype(np.int32), d=d[o], D=D[o], S=S[o].astype(np.int32))
    out = tuple(np.ascontiguousarray(r[q]) for q in quantities)
    return out[0] if len(out) == 1 else out
