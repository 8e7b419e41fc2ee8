"""event generation: the library holds every hop of the crystal, whatever was generated before."""
from __future__ import annotations

import copy
import functools
import gzip
import hashlib
import itertools
import json
import math
import os
import random
import subprocess
import sys

import numpy as np

from ..core import Violation, canon
from .. import disk

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("distinct event-log digests of runs in which a library was generated and, besides, another one was "
        "generated before, an input was refused or a fault hit a file operation")
REAL = ["EventGenerator.generate_events, labelled CIF reader, ActiveSiteOrder, ClusterMatcher, EventLib, atomic writer",
        "pymatgen's CIF tokenizer and neighbour search"]
STUB = ["disk below libc (LD_PRELOAD shim and dst/disk.py)"]
ASSUMPTIONS = ["rename is atomic, fsync makes data durable", "one process at a time",
               "cutoffs stay 0.02 A away from every distance of the crystal and below the supercell's translations",
               "hops are listed for each ordered pair of matching sites and each periodic image, as kMCpy defines them"]
STATE_MEASURE = "distinct (crystal, selection, supercell, outcome, fault) tuples"

ALLOWED = {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": ["O"], "Zr": ["Zr"], "K": ["K", "X"]}
OPS = {"P1": [("x,y,z", np.eye(3), (0, 0, 0))],
       "I": [("x,y,z", np.eye(3), (0, 0, 0)), ("x+1/2,y+1/2,z+1/2", np.eye(3), (.5, .5, .5))],
       "C": [("x,y,z", np.eye(3), (0, 0, 0)), ("x+1/2,y+1/2,z", np.eye(3), (.5, .5, 0))],
       "-1": [("x,y,z", np.eye(3), (0, 0, 0)), ("-x,-y,-z", -np.eye(3), (0, 0, 0))],
       "21": [("x,y,z", np.eye(3), (0, 0, 0)), ("-x,y+1/2,-z", np.diag([-1., 1, -1]), (0, .5, 0))],
       "F": [("x,y,z", np.eye(3), (0, 0, 0)), ("x,y+1/2,z+1/2", np.eye(3), (0, .5, .5)),
             ("x+1/2,y,z+1/2", np.eye(3), (.5, 0, .5)), ("x+1/2,y+1/2,z", np.eye(3), (.5, .5, 0))]}
SELECT = [None, ["Na1", "Na2"], ["Na1", "Na1"], ["Na2", "Na1"], ["Na", "Na"], [["Na1", "Na2"], "Na1"], ["Na1", ["Na1", "Na2"]],
          ["Na3", "Na1"], ["Zr1", "Zr1"]]


# -- crystals ------------------------------------------------------------------------
def matrix(c):
    a, b, cc, al, be, ga = c["cell"]
    al, be, ga = (math.radians(x) for x in (al, be, ga))
    v = (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    w = math.sqrt(max(1 - math.cos(be) ** 2 - v * v, 1e-12))
    return np.array([[a, 0, 0], [b * math.cos(ga), b * math.sin(ga), 0],
                     [cc * math.cos(be), cc * v, cc * w]])


def expand(c):
    """[(species, label, fractional)] of the whole cell; None if atoms overlap."""
    out = []
    for sp, label, x in c["sites"]:
        orbit = []
        for _, rot, t in OPS[c["group"]]:
            y = (rot @ np.array(x) + np.array(t)) % 1.0
            y[np.abs(y - 1) < 1e-9] = 0.0
            if not any(np.max(np.abs((y - z + 0.5) % 1.0 - 0.5)) < 1e-6 for z in orbit):
                orbit.append(y)
        out += [(sp, label, y) for y in orbit]
    m = matrix(c)
    for (_, _, p), (_, _, q) in itertools.combinations(out, 2):
        d = (p - q + 0.5) % 1.0 - 0.5
        if np.linalg.norm(d @ m) < 1.2:
            return None
    return out


def gen_crystal(r):
    while True:
        kind = r.choice(["cubic", "tetra", "ortho", "mono", "tri"])
        a, b, c = (round(r.uniform(4.0, 7.0), 3) for _ in range(3))
        cell = {"cubic": [a, a, a, 90, 90, 90], "tetra": [a, a, c, 90, 90, 90], "ortho": [a, b, c, 90, 90, 90],
                "mono": [a, b, c, 90, round(r.uniform(75, 110), 2), 90],
                "tri": [a, b, c, 80.0, round(r.uniform(75, 105), 2), 95.5]}[kind]
        group = r.choice(["P1", "P1", "I", "C", "-1", "F", "P1" if kind == "tri" else "21"])
        sites, used = [], set()
        names = ["Na", r.choice(["Na", "Si", "O"])] + [r.choice(["Na", "Si", "O", "Zr"]) for _ in range(r.choice([0, 0, 1, 2]))]
        count = {}
        for sp in names:
            count[sp] = count.get(sp, 0) + 1
            x = [r.choice([0, 0.25, 0.5, 0.125]) if r.random() < 0.6 else round(r.random(), 4) for _ in range(3)]
            sites.append([sp, f"{sp}{count[sp]}", x])
        c = {"cell": cell, "group": group, "sites": sites}
        full = expand(c)
        if full is not None and len(full) <= 8:
            return c


def cif(c):
    full = c["sites"]
    lines = ["data_x"] + [f"_cell_length_{n} {v}" for n, v in zip("abc", c["cell"][:3])]
    lines += [f"_cell_angle_{n} {v}" for n, v in zip(("alpha", "beta", "gamma"), c["cell"][3:])]
    lines += ["loop_", "_symmetry_equiv_pos_as_xyz"] + [f"'{o[0]}'" for o in OPS[c["group"]]]
    lines += ["loop_", "_atom_site_label", "_atom_site_type_symbol", "_atom_site_fract_x", "_atom_site_fract_y",
              "_atom_site_fract_z", "_atom_site_occupancy"]
    lines += [f"{lab} {sp} {x[0]:.6f} {x[1]:.6f} {x[2]:.6f} 1" for sp, lab, x in full]
    return "\n".join(lines) + "\n"


def neighbours(full, m, i, reach, cut):
    """[(j, image, vector, distance)] of active site j within cut(i, j); closest call to a cutoff."""
    out, gap = [], 9.0
    inv = np.linalg.norm(np.linalg.inv(m), axis=0)     # 1/plane spacing
    n = [int(math.ceil(reach * v)) + 1 for v in inv]
    cells = np.array(list(itertools.product(*[range(-k, k + 1) for k in n])))
    for j, (sp, _, f) in enumerate(full):
        if len(ALLOWED[sp]) < 2:
            continue
        v = (f + cells - full[i][2]) @ m
        d = np.linalg.norm(v, axis=1)
        c = cut(full[i][0], sp)
        for k in np.nonzero(d < reach + 0.1)[0]:
            if d[k] < 1e-6:
                continue
            gap = min(gap, abs(d[k] - c)) if c else gap
            if d[k] < c:
                out.append((j, tuple(int(x) for x in cells[k]), v[k], float(d[k])))
    return out, gap


def cut_of(req):
    if req["dict"]:
        t = {}
        for a, b, d in req["dict"]:
            t[a, b] = t[b, a] = d
        return lambda a, b: t.get((a, b), 0.0)
    return lambda a, b: req["cutoff"]


def gen_request(r, c):
    full, m = expand(c), matrix(c)
    shape = [r.choice([1, 1, 2, 2, 3]) for _ in range(3)]
    while shape[0] * shape[1] * shape[2] > 12:
        shape[r.randrange(3)] = 1
    if r.random() < 0.15:
        shape = [2, 1, 1]
    sup = np.diag(shape) @ m
    short = min(float(np.linalg.norm(np.array(v) @ sup)) for v in itertools.product([-1, 0, 1], repeat=3) if any(v))
    cut = round(r.uniform(2.0, min(6.0, short - 0.05)), 3) if short > 2.2 else 2.0
    if short > 4.1 and r.random() < 0.2:
        cut = 4.0
    d = None
    if r.random() < 0.3:
        d = [["Na", "Na", cut]]
        if r.random() < 0.7:
            pair = ["Na", "Si"]
            r.shuffle(pair)
            d.append([*pair, round(r.uniform(2.0, min(6.0, max(short - 0.05, 2.1))), 3)])
            r.shuffle(d)
    req = {"cutoff": cut, "dict": d, "shape": shape, "select": r.choice(SELECT), "nearest": r.random() < 0.4,
           "mobile": r.choice([None, ["Na"]]), "extra": r.random() < 0.2, "export": r.random() < 0.1,
           "mixed": r.random() < 0.3, "brief": r.random() < 0.5, "tol": r.choice([None, None, "rtol", "distance_matrix_rtol"]),
           "bad": r.choice(["mapping", "three", "species"]) if r.random() < 0.05 else None}
    return req if feasible(c, req) else None


def feasible(c, req):
    """Few neighbours, no distance near a cutoff, no site next to its own image."""
    full, m = expand(c), matrix(c)
    sup = np.diag(req["shape"]) @ m
    reach = max([req["cutoff"]] + [d[2] for d in req["dict"] or ()])
    if min(float(np.linalg.norm(np.array(v) @ sup)) for v in itertools.product([-1, 0, 1], repeat=3) if any(v)) < reach + 0.02:
        return False
    cf = cut_of(req)
    for i, s in enumerate(full):
        if s[0] == "Na":
            nb, gap = neighbours(full, m, i, reach, cf)
            if gap < 0.02 or len(nb) > 14 or (req["nearest"] and max(
                    [sum(full[n[0]][0] == sp for n in nb) for sp in ("Na", "Si")]) > 5):
                return False
    return True


def gen(r, tier, i):
    crystals, reqs = [], []
    for _ in range(r.choice([1, 2, 2])):
        c = gen_crystal(r)
        if crystals and r.random() < 0.6:      # another version of the same crystal
            c = copy.deepcopy(crystals[0])
            k = r.randrange(len(c["sites"]))
            j = r.randrange(3)
            c["sites"][k][2][j] = round((-c["sites"][k][2][j] if r.random() < 0.5 else c["sites"][k][2][j] + r.uniform(-0.1, 0.1)) % 1.0, 4)
            full = expand(c)
            if full is None or len(full) > 8:
                c = gen_crystal(r)
        crystals.append(c)
    while len(reqs) < r.choice([1, 2, 3]):
        k = r.randrange(len(crystals))
        q = gen_request(r, crystals[k])
        if q is None:
            if r.random() < 0.05:
                crystals[k] = gen_crystal(r)
                reqs = [x for x in reqs if x["crystal"] != k]
            continue
        q["crystal"] = k
        reqs.append(q)
        if r.random() < 0.4:      # the same for another version or other endpoints
            q2 = dict(q, crystal=r.randrange(len(crystals)), select=r.choice([q["select"], r.choice(SELECT)]))
            if feasible(crystals[q2["crystal"]], q2):
                reqs.append(q2)
    rounds = []
    for _ in range(r.choice([1, 1, 2, 3])):
        ops = [{"req": r.randrange(len(reqs)), "file": r.choice(["e0.json", "e0.json", "e1.json"]),
                "reuse": r.random() < 0.6, "again": r.random() < 0.25, "gz": r.random() < 0.2,
                "input": r.choice([None] * 9 + ["cut", "missing"]), "where": r.random()}
               for _ in range(r.choice([1, 2, 3, 4]))]
        rounds.append({"ops": ops, "fault": disk.gen_fault(r, r.choice([6, 20]), disk.FAULTS + ["readerr", "readshort"])
                       if r.random() < 0.5 else None})
    return {"crystals": crystals, "reqs": reqs, "rounds": rounds,
            "hashseed": r.randrange(1, 1000) if r.random() < 0.012 else None}


# -- the reference ----------------------------------------------------------------------
def picks(ident, label, sp):
    for t in ([ident] if isinstance(ident, str) else ident):
        if t in (label, sp):
            return True
    return False


@functools.lru_cache(maxsize=300)
def _expected(text):
    c, q = json.loads(text)
    full, m = expand(c), matrix(c)
    sel = q["select"] or ["Na", "Na"]
    cf = cut_of(q)
    reach = max([q["cutoff"]] + [d[2] for d in q["dict"] or ()])
    env, groups, ok = {}, {}, "good"
    for i, (sp, label, _) in enumerate(full):
        if sp != "Na" or not picks(sel[0], label, sp):
            continue
        nb, _ = neighbours(full, m, i, reach, cf)
        env[i] = nb
        sig = tuple(sorted((s, sum(full[n[0]][0] == s for n in nb)) for s in {full[n[0]][0] for n in nb}))
        groups.setdefault(sig, []).append(i)
    hops = sum(1 for i in env for n in env[i] if picks(sel[1], full[n[0]][1], full[n[0]][0]) and full[n[0]][0] == "Na")
    if not hops:
        return full, m, env, groups, "bad"
    if q["bad"]:
        return full, m, env, groups, "bad"
    if not q["nearest"]:
        for g in groups.values():
            for i in g[1:]:
                if full[i][1] == full[g[0]][1]:
                    continue          # symmetry-equivalent: congruent
                v = congruent(full, env[g[0]], env[i])
                if v is not True:
                    ok = "bad" if v is False and ok != "either" else "either" if ok != "bad" else ok
    return full, m, env, groups, ok


def pair_distances(full, nb):
    out = {}
    for a, b in itertools.combinations(nb, 2):
        key = tuple(sorted((full[a[0]][0], full[b[0]][0])))
        out.setdefault(key, []).append(float(np.linalg.norm(a[2] - b[2])))
    return {k: sorted(v) for k, v in out.items()}


def congruent(full, a, b):
    """False: certainly not; None: cannot tell; True only when there is nothing to compare."""
    if len(a) < 2:
        return True
    x, y = pair_distances(full, a), pair_distances(full, b)
    for k in x:
        if any(abs(u - v) > 3 * (0.01 + 0.01 * u) for u, v in zip(x[k], y[k])):
            return False
    return None


def mapping(c, q):
    out = {}
    for sp, _, _ in c["sites"]:
        a = ALLOWED[sp]
        out[sp] = a[0] if len(a) == 1 and q["mixed"] else list(a)
    if q["extra"]:
        out["K"] = ["K", "X"]
    return out


def oxidation(c):
    """species -> string with the guessed oxidation state, as pymatgen alone gives it."""
    return _oxidation(canon(c))


@functools.lru_cache(maxsize=300)
def _oxidation(text):
    from pymatgen.core import Lattice, Structure
    c = json.loads(text)
    full = expand(c)
    s = Structure(Lattice(matrix(c)), [x[0] for x in full], [x[2] for x in full])
    s.add_oxidation_state_by_guess()
    return {f[0]: site.species_string for f, site in zip(full, s)}


def kwargs(c, q):
    kw = {"site_mapping": mapping(c, q), "supercell_shape": list(q["shape"]), "find_nearest_if_fail": q["nearest"]}
    if q["dict"]:
        ox = oxidation(c)
        kw["local_env_cutoff_dict"] = {(ox.get(a, a), ox.get(b, b)): d for a, b, d in q["dict"]}
    else:
        kw["local_env_cutoff"] = q["cutoff"]
    if q["select"]:
        kw["mobile_ion_identifiers"] = tuple(tuple(x) if isinstance(x, list) else x for x in q["select"])
    if q["mobile"]:
        kw["mobile_species"] = list(q["mobile"])
    if q["brief"] and q["shape"] == [2, 1, 1]:
        del kw["supercell_shape"]        # the documented default
    if q["brief"] and kw.get("local_env_cutoff") == 4.0:
        del kw["local_env_cutoff"]
    if q["brief"] and q["nearest"]:
        del kw["find_nearest_if_fail"]
    if q["tol"]:
        kw[q["tol"]] = 0.01
        kw[q["tol"].replace("rtol", "atol")] = 0.01
    if q["bad"] == "mapping":
        del kw["site_mapping"]
    elif q["bad"] == "three":
        kw["mobile_ion_identifiers"] = ("Na1", "Na1", "Na1")
    elif q["bad"] == "species":
        kw["site_mapping"] = {k: v[0] if isinstance(v, list) else v for k, v in kw["site_mapping"].items()}
    if q["export"]:
        kw["export_local_env_structure"] = True
    return kw


@functools.lru_cache(maxsize=300)
def _space(text):
    """The sites of the simulation cell in the order simulations use: [(cell site, cell shift)]."""
    from kmcpy.io.cif import load_labeled_structure_from_string
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    c, q = json.loads(text)
    s = load_labeled_structure_from_string(cif(c))
    o = ActiveSiteOrder.from_structure_and_mapping(s, mapping(c, q), supercell_shape=q["shape"])
    a = o.active_structure()
    full = expand(c)
    out = []
    want = sum(len(ALLOWED[x[0]]) > 1 for x in full) * int(np.prod(q["shape"]))
    for site in a:
        f = np.array(site.frac_coords) * np.array(q["shape"])
        hit = []
        for j, x in enumerate(full):
            t = f - x[2]
            k = np.rint(t)
            if np.max(np.abs(t - k)) < 1e-4:
                hit.append((j, tuple(int(u) for u in np.mod(k, q["shape"]))))
        if len(hit) != 1 or len(ALLOWED[full[hit[0][0]][0]]) < 2:
            raise Violation("wrong-sites", f"active site at {site.frac_coords} is no active site of the crystal")
        out.append(hit[0])
    if len(out) != want or len(set(out)) != want:
        raise Violation("wrong-sites", f"{len(set(out))} active sites, the supercell has {want}")
    return out


def judge(c, q, data):
    """None, or what is wrong with this event library."""
    full, m, env, groups, _ = _expected(canon([c, q]))
    space = _space(canon([c, q]))
    where = {x: k for k, x in enumerate(space)}
    sel = q["select"] or ["Na", "Na"]
    ev = data["events"]
    n = len(space)
    have, envs = {}, {}
    for e in ev:
        a, b = (int(x) for x in e["mobile_ion_indices"])
        loc = tuple(int(x) for x in e["local_env_indices"])
        if not all(0 <= x < n for x in (a, b) + loc):
            return f"event {a}->{b} names a site beyond the {n} active sites"
        have[a, b] = have.get((a, b), 0) + 1
        if envs.setdefault(a, loc) != loc:
            return f"two local environments for the hops from site {a}"
    want, wenv = {}, {}
    for k, (i, r) in enumerate(space):
        if i not in env:
            continue
        near = []
        for j, image, v, d in env[i]:
            t = where[j, tuple((x + y) % s for x, y, s in zip(r, image, q["shape"]))]
            near.append(t)
            if full[j][0] == "Na" and picks(sel[1], full[j][1], "Na"):
                want[k, t] = want.get((k, t), 0) + 1
        wenv[k] = sorted(near)
    if have != want:
        diff = sorted((set(have.items()) ^ set(want.items())))[:3]
        return f"{sum(have.values())} hops, the crystal has {sum(want.values())}; differing (pair, count): {diff}"
    for k, loc in envs.items():
        if sorted(loc) != wenv[k]:
            return f"local environment of site {k} is {sorted(loc)}, the crystal has {wenv[k]}"
    # translated copies list their environment in the same order
    first = {}
    for k, loc in sorted(envs.items()):
        i, r = space[k]
        rel = [(space[t][0], tuple((x - y) % s for x, y, s in zip(space[t][1], r, q["shape"]))) for t in loc]
        if first.setdefault(i, rel) != rel:
            return f"the environments of translated copies of cell site {i} are in different orders: {first[i]} and {rel}"
    # sites that share a reference environment list it in the same geometrical order
    for g in groups.values():
        ref = None
        for i in g:
            if i not in first:
                continue
            pos = resolve(env[i], first[i], q["shape"])
            if pos is None:
                ref = None
                break
            dm = np.linalg.norm(pos[:, None] - pos[None], axis=2) if len(pos) else np.zeros((0, 0))
            sp = [full[t[0]][0] for t in first[i]]
            if ref is None:
                ref = (i, dm, sp)
                continue
            if sp != ref[2]:
                return f"cell sites {ref[0]} and {i} share an environment but list it as {ref[2]} and {sp}"
            equivalent = full[i][1] == full[ref[0]][1]
            if (equivalent or not q["nearest"]) and np.any(np.abs(dm - ref[1]) > 2 * (0.011 + 0.011 * ref[1])):
                return f"cell sites {ref[0]} and {i} list congruent environments in different geometrical order"
    # dependencies: whoever reads a site a hop changes depends on it
    dep = data.get("event_dependencies")
    if dep is not None and len(dep) == len(ev) and len(ev) <= 400:
        reads = [set(e["mobile_ion_indices"]) | set(e["local_env_indices"]) for e in ev]
        for k, e in enumerate(ev):
            s = set(e["mobile_ion_indices"])
            d = set(int(x) for x in dep[k])
            for j, rd in enumerate(reads):
                if s & rd and j not in d:
                    return f"event {j} reads a site event {k} changes but is not in its dependencies"
    return None


def resolve(nb, rel, shape):
    """Cartesian vectors of an ordered environment; None if an index stands for several images."""
    out, seen = [], {}
    for j, image, v, d in nb:
        seen.setdefault((j, tuple(x % s for x, s in zip(image, shape))), []).append(v)
    if any(len(v) > 1 for v in seen.values()):
        return None
    return np.array([seen[t][0] for t in rel]).reshape(len(rel), 3)


# -- one process --------------------------------------------------------------------------
def source(src, op, q, sc):
    name = f"c{q['crystal']}"
    if op["input"]:
        name += "_" + op["input"]
    return os.path.join(src, name + (".cif.gz" if op["gz"] else ".cif"))


def write_source(sc, op, src):
    q = sc["reqs"][op["req"]]
    c = sc["crystals"][q["crystal"]]
    path = source(src, op, q, sc)
    if op["input"] == "missing":
        return
    text = cif(c)
    if op["input"] == "cut":
        text = text[:text.index("_atom_site_occupancy") if op["where"] < 0.5 else int(text.index("loop_") * op["where"])]
    if op["gz"]:
        with open(path, "wb") as f:
            f.write(gzip.compress(text.encode(), mtime=0))
    else:
        with open(path, "w") as f:
            f.write(text)


SEEN = {}      # request -> digest of the library it gave, over all runs of this process


def load(path):
    """The library in a file, or None."""
    try:
        with open(path) as f:
            d = json.load(f)
        return d if isinstance(d.get("events"), list) else None
    except (OSError, ValueError, AttributeError):
        return None


def essence(d):
    return hashlib.sha256(canon([[list(map(int, e["mobile_ion_indices"])), list(map(int, e["local_env_indices"]))] for e in d["events"]]).encode()).hexdigest()[:24]


def run(sc, ctx):
    root = os.path.join(os.path.realpath(ctx.scratch), "p")
    src = os.path.join(os.path.realpath(ctx.scratch), "src")
    os.makedirs(root)
    os.makedirs(src)
    for rd in sc["rounds"]:
        for op in rd["ops"]:
            write_source(sc, op, src)
    files = {}       # name -> requests whose library it may hold (None: absent)
    taken = extra = 0
    for n, rd in enumerate(sc["rounds"]):
        fault = rd["fault"]
        area = src if fault and fault["kind"].startswith("read") else root
        before = disk.snapshot(root)

        def go(report):
            from kmcpy.event import EventGenerator
            os.chdir(root)
            keep = EventGenerator()
            for op in rd["ops"]:
                q = sc["reqs"][op["req"]]
                c = sc["crystals"][q["crystal"]]
                report("begin", op["file"], op["req"])
                g = keep if op["reuse"] else EventGenerator()
                kw = kwargs(c, q)
                given = canon([sorted(map(str, kw.items()))])
                try:
                    g.generate_events(structure_file=source(src, op, q, sc), event_file=op["file"], **kw)
                except (Exception, KeyboardInterrupt) as e:
                    report("refused", op["file"], op["req"], op["input"], type(e).__name__, str(e)[:200])
                    continue
                if canon([sorted(map(str, kw.items()))]) != given:
                    raise Violation("arguments-changed", f"{given} became {canon([sorted(map(str, kw.items()))])}")
                report("saved", op["file"], op["req"], op["input"])
                if op["again"] and not fault:
                    EventGenerator().generate_events(structure_file=source(src, op, q, sc), event_file="again.json", **kw)
                    if load("again.json")["events"] != load(op["file"])["events"]:
                        raise Violation("not-repeatable", f"request {op['req']} repeated at once with a new generator gave "
                                                          "another library")
                    os.remove("again.json")
        msgs, code, log = disk.spawn(go, area, fault)
        died = disk.crashed(fault, code)
        fired = died or any(m[0] == "ops" and m[3] for m in msgs)
        if died and fault["kind"].startswith("power"):
            disk.power_loss(root, before, log, random.Random(fault["salt"]))
        if fired:
            ctx.fault(fault["kind"])
            extra += 1
        for m in msgs:
            if m[0] not in ("begin", "saved", "refused"):
                continue
            q = sc["reqs"][m[2]]
            ok = _expected(canon([sc["crystals"][q["crystal"]], q]))[4]
            if m[0] == "begin":
                files.setdefault(m[1], [None]).append(m[2])
            elif m[0] == "saved":
                files[m[1]] = [m[2]]
                taken += 1
                if m[3] in ("cut", "missing") or ok == "bad":
                    raise Violation("bad-input-accepted", f"request {m[2]} with {m[3] or 'unmatched'} input gave a library")
            else:
                extra += 1
                ctx.probe("refused")
                if not fired:
                    if not m[3] and ok == "good":
                        raise Violation("refused", f"request {m[2]}: {m[4]}: {m[5]}")
                    if len(files[m[1]]) > 1:
                        files[m[1]].pop()      # refused before anything was written
        for name, allowed in sorted(files.items()):
            p = os.path.join(root, name)
            if not os.path.exists(p):
                if None not in allowed:
                    raise Violation("file-lost", f"{name} is gone after {fault and fault['kind']} in round {n}")
                files[name] = [None]
                continue
            d = load(p)
            if d is None:
                with open(p, "rb") as f:
                    raise Violation("file-damaged", f"{name} after {fault and fault['kind']} in round {n}: {f.read()[:150]!r}")
            why, hit = None, None
            for k in reversed(allowed):
                if k is None:
                    continue
                q = sc["reqs"][k]
                c = sc["crystals"][q["crystal"]]
                why = judge(c, q, d)
                if why is None:
                    hit = k
                    break
            if hit is None:
                raise Violation("wrong-library", f"{name} (requests {allowed}): {why}")
            files[name] = [hit]
            q = sc["reqs"][hit]
            key = canon([sc["crystals"][q["crystal"]], {k: v for k, v in q.items() if k != "crystal"}])
            es = essence(d)
            if SEEN.setdefault(key, es) != es:
                raise Violation("not-repeatable", f"{name}: the same request gave another library before")
            ctx.log("file", name, hit, es)
        ctx.log("round", n, canon([m[:5] for m in msgs if m[0] != "ops"]).replace(ctx.scratch, ""), code)
        ctx.state(canon([m[0] for m in msgs if m[0] in ("saved", "refused")]), fault and fault["kind"], fired,
                  *[sc["crystals"][q["crystal"]]["group"] for q in sc["reqs"]])
        ctx.steps += len(rd["ops"])
    if sc["hashseed"] is not None and taken:
        other_hash(sc, ctx)
    if taken and (extra or taken > 1):
        ctx.nontrivial = True


def other_hash(sc, ctx):
    """The same request in a fresh interpreter with another hash seed."""
    d = os.path.join(os.path.realpath(ctx.scratch), "h")
    os.makedirs(d)
    for k, q in enumerate(sc["reqs"]):
        c = sc["crystals"][q["crystal"]]
        if _expected(canon([c, q]))[4] != "good":
            continue
        with open(os.path.join(d, "c.cif"), "w") as f:
            f.write(cif(c))
        kw = kwargs(c, q)
        code = f"from kmcpy.event import EventGenerator\nEventGenerator().generate_events(structure_file='c.cif', event_file='e.json', **{kw!r})"
        env = dict(os.environ, PYTHONHASHSEED=str(sc["hashseed"]))
        env.pop("LD_PRELOAD", None)
        o = subprocess.run([sys.executable, "-c", code], cwd=d, env=env, capture_output=True, text=True)
        if o.returncode:
            raise Violation("refused", f"request {k} in a fresh process: {o.stderr[-200:]}")
        lib = load(os.path.join(d, "e.json"))
        why = judge(c, q, lib)
        if why:
            raise Violation("wrong-library", f"request {k} in a fresh process: {why}")
        key = canon([c, {x: v for x, v in q.items() if x != "crystal"}])
        es = essence(lib)
        if SEEN.setdefault(key, es) != es:
            raise Violation("not-repeatable", f"request {k}: another library in a process with hash seed {sc['hashseed']}")
        ctx.probe("other-hash-seed")
        ctx.log("hash", k, es)


# -- shrinking ------------------------------------------------------------------------------
def shrink(sc):
    for k in range(len(sc["rounds"])):
        if len(sc["rounds"]) > 1:
            n = copy.deepcopy(sc)
            del n["rounds"][k]
            yield n
        if sc["rounds"][k]["fault"]:
            n = copy.deepcopy(sc)
            n["rounds"][k]["fault"] = None
            yield n
        for j in range(len(sc["rounds"][k]["ops"]) - 1, -1, -1):
            if len(sc["rounds"][k]["ops"]) > 1:
                n = copy.deepcopy(sc)
                del n["rounds"][k]["ops"][j]
                yield n
    if sc["hashseed"] is not None:
        n = copy.deepcopy(sc)
        n["hashseed"] = None
        yield n
    for k, q in enumerate(sc["reqs"]):
        for key, v in (("extra", False), ("export", False), ("mixed", False), ("mobile", None), ("brief", False), ("tol", None)):
            if q[key] != v:
                n = copy.deepcopy(sc)
                n["reqs"][k][key] = v
                yield n


def warm(path):
    from kmcpy.event import EventGenerator
    os.makedirs(path, exist_ok=True)
    c = {"cell": [5, 5, 5, 90, 90, 90], "group": "I", "sites": [["Na", "Na1", [0, 0, 0]], ["Na", "Na2", [.5, 0, 0]],
                                                                ["O", "O1", [.25, .25, .25]]]}
    p = os.path.join(path, "c.cif")
    with open(p, "w") as f:
        f.write(cif(c))
    EventGenerator().generate_events(structure_file=p, event_file=os.path.join(path, "e.json"), local_env_cutoff=3.0,
                                     site_mapping={"Na": ["Na", "X"], "O": "O"}, supercell_shape=[2, 1, 1])
