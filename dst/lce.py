"""Real LocalClusterExpansion objects on small generated local environments."""
from __future__ import annotations

import functools
import json

import numpy as np

from .core import canon


def gen_spec(r):
    n = r.randint(2, 4)
    seen, sites = set(), []
    while len(sites) < n:
        x = tuple(5 + r.randint(0, 3) for _ in range(3))
        if x in seen:
            continue
        seen.add(x)
        sites.append([("Na" if not sites else r.choice(["Na", "Si", "Si", "O"])), list(x)])
    return {"sites": sites, "na": r.choice([["Na", "X"], ["Na", "K", "X"]]),
            "cut": r.choice([[3.0, 3.0, 0.0], [4.0, 0.0, 0.0], [2.5, 2.5, 2.5]]),
            "basis": r.choice(["chebyshev", "chebyshev", "occupation"]),
            "exclude": r.random() < 0.5}


@functools.lru_cache(maxsize=64)
def _payload(text):
    from pymatgen.core import Lattice, Structure
    from kmcpy.models import LocalClusterExpansion
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
    s = json.loads(text)
    st = Structure(Lattice.cubic(20.0), [x[0] for x in s["sites"]], [x[1] for x in s["sites"]],
                   coords_are_cartesian=True)
    lls = LocalLatticeStructure(
        template_structure=st, site_mapping={"Na": s["na"], "Si": ["Si", "P"], "O": ["O", "S"]},
        center=0, cutoff=6.0, basis_type=s["basis"], exclude_center_site=s["exclude"])
    m = LocalClusterExpansion()
    m.build(lls, cutoff_cluster=s["cut"])
    return m


def build(spec):
    """A fresh built model (never a reloaded one)."""
    import copy
    m = _payload(canon(spec))
    return copy.copy(m)


def n_features(m):
    return len(m.cluster_site_indices)


def n_local(spec):
    return len(spec["sites"]) - (1 if spec["exclude"] else 0)


def states_per_site(m):
    return [int(c) for c in m.basis_site_state_counts] if hasattr(m, "basis_site_state_counts") else None


def probe(m, spec, k=6):
    """Energies of fixed local occupations, computed by the model itself."""
    from kmcpy.event import Event
    from kmcpy.simulator.state import State
    n = n_local(spec)
    ev = Event(mobile_ion_indices=(0, 1), local_env_indices=tuple(range(n)))
    out = []
    for i in range(k):
        occ = [(i >> j) & 1 for j in range(n)]
        if spec["basis"] == "occupation":
            occ = [1 if o else -1 for o in occ]
        out.append(float(m.compute(simulation_state=State(occupations=occ), event=ev)).hex())
    return out
