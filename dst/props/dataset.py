"""fitting data: every accepted calculation once, with its own row, in memory and on disk."""
from __future__ import annotations

import copy
import functools
import json
import os
import random

import numpy as np

from ..core import Violation, canon
from .. import disk
from .common import same

LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("distinct event-log digests of runs in which rows were added and, besides, an addition was refused, "
        "an entry was used twice or a fault hit a file operation")
REAL = ["kmcpy.io.neb (NEBEntry, NEBDataLoader)", "LocalClusterExpansion built on generated environments, "
        "LocalLatticeStructure, ActiveSiteOrder", "LCEFitter.fit, pymatgen file readers"]
STUB = ["disk below libc (LD_PRELOAD shim and dst/disk.py)"]
ASSUMPTIONS = ["rename is atomic, fsync makes data durable", "one process at a time",
               "a full structure (no vacancy, with fixed sites) whose sites are listed in another order than the "
               "template's may be refused"]
STATE_MEASURE = "distinct (operation, kind of structure, outcome, fault, rows) tuples"
NEEDS_JIT = True

MAPPING = {"Na": ["Na", "K", "X"], "Si": ["Si", "P"], "O": ["O", "S", "X"], "Zr": "Zr"}
L = 20.0
BAD = ["displaced", "foreign", "lattice", "missing-file", "cut-file"]


# -- scenario -----------------------------------------------------------------------
def gen_sites(r):
    seen, sites = set(), []
    n = r.randint(3, 5)
    while len(sites) < n:
        x = tuple(5 + r.randint(0, 3) for _ in range(3))
        if x in seen:
            continue
        seen.add(x)
        sites.append(["Na" if not sites else r.choice(["Na", "Si", "O", "Zr", "Na"]), list(x)])
    if all(s[0] == "Zr" for s in sites[1:]):
        sites[-1][0] = "Si"
    order = list(range(n))
    r.shuffle(order)
    return [sites[k] for k in order]


def gen_structure(r, sites):
    deco = []
    for sp, _ in sites:
        a = MAPPING[sp]
        deco.append(a if isinstance(a, str) else r.choice(a))
    order = list(range(len(sites)))
    if r.random() < 0.5:
        r.shuffle(order)
    bad = r.choice(BAD) if r.random() < 0.2 else None
    return {"deco": deco, "order": order, "shift": [[r.choice([0, 0, 0, 1, -1]) for _ in range(3)] for _ in sites],
            "bad": bad, "where": r.random(),
            "as": r.choice(["object", "object", "poscar", "vasp", "json"]) if not (bad or "").endswith("file") else
            r.choice(["poscar", "json"])}


def gen_value(r):
    return r.choice([round(r.uniform(50, 600), r.choice([1, 6, 12])), r.randint(50, 600), 0.0, -12.5])


def gen_op(r, n_str, n_models):
    x = r.random()
    if x < 0.1:
        return {"op": "loader", "model": r.choice([0, 0, n_models - 1, None])}
    if x < 0.25:
        return {"op": "entry", "s": r.randrange(n_str), "value": gen_value(r), "meta": r.choice([None, 1, 2])}
    if x < 0.45:
        return {"op": "add", "entry": r.randrange(6), "loader": r.randrange(3), "model": r.choice([None, None, None, 0, n_models - 1]),
                "bad": r.choice([None, None, None, None, None, None, None, "text", "type"])}
    if x < 0.65:
        return {"op": "structure", "s": r.randrange(n_str), "value": gen_value(r), "meta": r.choice([None, 1, 2]),
                "loader": r.randrange(3), "model": r.choice([None, None, None, 0, n_models - 1])}
    if x < 0.78:
        k = r.randint(1, 4)
        return {"op": r.choice(["batch", "batch", "from"]), "ss": [r.randrange(n_str) for _ in range(k)],
                "values": [gen_value(r) for _ in range(r.choice([k, k, k, k, k, k, k + 1, max(k - 1, 0)]))],
                "metas": r.choice([None, "each", "each", "short"]), "loader": r.randrange(3), "model": r.randrange(n_models)}
    if x < 0.88:
        return {"op": "json", "loader": r.randrange(3), "prefix": r.choice(["ekra", "b"]), "dir": r.choice([".", "out"])}
    return {"op": "inputs", "loader": r.randrange(3), "dir": r.choice(["fit", "fit", "."]),
            "weight": r.choice(["one", "two", "each", "each", "short"]), "fit": r.random() < 0.6,
            "normalize": r.random() < 0.5, "alpha": r.choice([0.01, 1.0])}


def gen(r, tier, i):
    sites = gen_sites(r)
    models = [r.choice([[4.0, 4.0, 0.0], [6.0, 0.0, 0.0], [3.0, 3.0, 3.0]]) for _ in range(r.choice([1, 2]))]
    if len(models) == 2 and models[0] == models[1]:
        models.pop()
    strs = [gen_structure(r, sites) for _ in range(r.randint(2, 5))]
    rounds = []
    for _ in range(r.choice([1, 1, 2, 3])):
        ops = [{"op": "loader", "model": 0}]
        ops += [gen_op(r, len(strs), len(models)) for _ in range(r.choice([4, 8, 14]))]
        kinds = disk.FAULTS + ["readerr", "readshort"]
        rounds.append({"ops": ops, "fault": disk.gen_fault(r, r.choice([8, 25]), kinds) if r.random() < 0.5 else None})
    return {"sites": sites, "models": models, "center": r.random() < 0.5, "structures": strs, "rounds": rounds}


def warm(path):
    """Import and compile everything before the workers fork."""
    from kmcpy.io.neb import NEBDataLoader
    os.makedirs(path, exist_ok=True)
    sites = [["Na", [5, 5, 5]], ["Na", [6, 5, 5]], ["Si", [5, 6, 5]], ["Zr", [6, 6, 6]]]
    sc = {"sites": sites, "models": [[4.0, 4.0, 0.0]], "center": True}
    m, _ = built(sc, 0)
    lo = NEBDataLoader(model=m)
    for k, how in enumerate(["object", "poscar", "vasp", "json"]):
        s = {"deco": ["Na", "K" if k % 2 else "X", "P" if k > 1 else "Si", "Zr"], "order": [0, 1, 2, 3], "bad": None,
             "shift": [[0, 0, 0]] * 4, "where": 0.0, "as": how}
        lo.add_structure(make_structure(sc, s, path, f"w{k}"), 100.0 + k)
        row(sc, s, 0)
    from kmcpy.models.fitting.fitter import LCEFitter
    LCEFitter().fit(alpha=0.1, max_iter=1000, lce_params_fname=None, lce_params_history_fname=None,
                    keci_fname=os.path.join(path, "k"), **lo.write_fitting_inputs(path))


# -- world ---------------------------------------------------------------------------
@functools.lru_cache(maxsize=200)
def _built(text):
    from pymatgen.core import Lattice, Structure
    from kmcpy.models import LocalClusterExpansion
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
    sites, cut, exclude = json.loads(text)
    st = Structure(Lattice.cubic(L), [x[0] for x in sites], [x[1] for x in sites], coords_are_cartesian=True)
    center = next(k for k, s in enumerate(sites) if s[0] == "Na")
    lls = LocalLatticeStructure(template_structure=st, site_mapping={k: MAPPING[k] for k in {s[0] for s in sites}},
                                center=center, cutoff=6.0, exclude_center_site=exclude)
    m = LocalClusterExpansion()
    m.build(lls, cutoff_cluster=cut)
    return m, lls


def built(sc, k):
    m, lls = _built(canon([sc["sites"], sc["models"][k], sc["center"]]))
    return copy.copy(m), lls


def row(sc, s, k):
    """Occupations of the active sites and the correlation row, from the decoration alone."""
    m, lls = built(sc, k)
    occ = [MAPPING[sp].index(x) for (sp, _), x in zip(sc["sites"], s["deco"]) if not isinstance(MAPPING[sp], str)]
    active = [j for j, (sp, _) in enumerate(sc["sites"]) if not isinstance(MAPPING[sp], str)]
    n = [len(MAPPING[sc["sites"][j][0]]) for j in active]
    tab = {q: np.asarray(m.basis.site_basis_values(q)) for q in set(n)}
    local = [int(j) for j in lls.site_indices]
    corr = []
    bidx = m.correlation_basis_indices
    for a, orbit in enumerate(m.cluster_site_indices):
        tot = 0.0
        for b, cluster in enumerate(orbit):
            p = 1.0
            for c, pos in enumerate(cluster):
                j = local[int(pos)]
                p *= tab[n[j]][occ[j]][int(bidx[a][b][c])]
            tot += p
        corr.append(tot)
    return occ, corr


def sites_of(sc, s):
    """[(species, fractional coordinates)] in file order; lattice constant."""
    out = []
    for j in s["order"]:
        x = s["deco"][j]
        if x == "X":
            continue
        f = [(c / L) + d for c, d in zip(sc["sites"][j][1], s["shift"][j])]
        out.append([x, f])
    a = L
    if out and s["bad"] in ("displaced", "foreign"):
        k = int(s["where"] * len(out))
        if s["bad"] == "displaced":
            out[k][1][0] += 0.5 / L
        else:
            out[k][0] = "Cl"
    if s["bad"] == "lattice":
        a = L + 1.0
    return out, a


def make_structure(sc, s, d, name):
    """What is handed to kMCpy: an object or the path of a file written here."""
    from pymatgen.core import Lattice, Structure
    out, a = sites_of(sc, s)
    if s["as"] == "object":
        return Structure(Lattice.cubic(a), [x[0] for x in out], [x[1] for x in out])
    if s["as"] == "json":
        path = os.path.join(d, name + ".json")
        text = json.dumps(Structure(Lattice.cubic(a), [x[0] for x in out], [x[1] for x in out]).as_dict())
    else:
        path = os.path.join(d, name + ".vasp" if s["as"] == "vasp" else "POSCAR_" + name)
        text = f"c\n1.0\n{a} 0 0\n0 {a} 0\n0 0 {a}\n" + " ".join(x[0] for x in out) + "\n" + " ".join("1" for _ in out) + \
            "\ndirect\n" + "".join("%.15f %.15f %.15f\n" % tuple(x[1]) for x in out)
    if s["bad"] == "cut-file":
        text = text[:int(len(text) * 0.45 * s["where"])]
    if s["bad"] != "missing-file":
        with open(path, "w") as f:
            f.write(text)
    return path


def verdict(sc, s):
    """'good', 'bad', or 'either' (may be refused, but if taken, rightly)."""
    fixed = any(isinstance(MAPPING[sp], str) for sp, _ in sc["sites"])
    out, _ = sites_of(sc, s)
    if not out and s["as"] != "object":
        return "either"      # a file without any atom
    if all(s["deco"][j] == "X" or isinstance(MAPPING[sc["sites"][j][0]], str) for j in s["order"]):
        return "either"      # no atom on any active site
    if s["bad"] in ("displaced", "foreign") and fixed:
        # a fixed site that moved or changed may be overlooked: it has no row entry
        k = [j for j in s["order"] if s["deco"][j] != "X"][int(s["where"] * len(out))]
        if isinstance(MAPPING[sc["sites"][k][0]], str):
            return "either"
    if s["bad"]:
        return "bad"
    if fixed and len(out) == len(sc["sites"]) and s["order"] != sorted(s["order"]):
        return "either"
    return "good"


# -- one process ---------------------------------------------------------------------
class Session:
    def __init__(self, sc, root, src, report, fault):
        self.sc, self.root, self.src, self.report, self.fault = sc, root, src, report, fault
        self.loaders = []      # [real, model index or None, rows]
        self.entries = []      # [real entry, structure index, value, metadata]

    def fail(self, kind, text):
        raise Violation(kind, text)

    def model(self, k):
        return None if k is None else built(self.sc, k)[0]

    def source(self, k):
        s = self.sc["structures"][k]
        if s["as"] == "object":
            return make_structure(self.sc, s, None, "")
        name = f"s{k}"
        if s["as"] == "json":
            return os.path.join(self.src, name + ".json")
        return os.path.join(self.src, name + ".vasp" if s["as"] == "vasp" else "POSCAR_" + name)

    def expect_row(self, k, value, meta, model):
        s = self.sc["structures"][k]
        occ, corr = row(self.sc, s, model)
        m = dict({"note": meta} if meta is not None else {})
        if s["as"] != "object":
            m["structure_file"] = self.source(k)
        return {"occ": occ, "corr": corr, "value": float(value), "meta": m}

    def attempt(self, what, ok, fn):
        """ok: 'good' must be taken, 'bad' must be refused.  Returns True if taken."""
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, Violation):
                raise
            self.report("refused", what, type(e).__name__, ok, str(e)[:200])
            return False
        self.report("taken", what)
        if ok == "bad":
            self.fail("bad-row-accepted", f"{what} was accepted")
        return True

    def compare(self, what):
        for j, (lo, _, rows) in enumerate(self.loaders):
            if len(lo) != len(rows):
                self.fail("row-count", f"{what}: data set {j} has {len(lo)} rows, {len(rows)} were accepted")
            if not rows:
                continue
            occ, corr, y = lo.get_occupation_matrix(), lo.get_correlation_matrix(), lo.get_properties()
            for k, w in enumerate(rows):
                if [int(v) for v in occ[k]] != w["occ"]:
                    self.fail("wrong-row", f"{what}: data set {j} row {k}: occupations {[int(v) for v in occ[k]]}, the structure has {w['occ']}")
                if len(corr[k]) != len(w["corr"]) or not all(same(a, b, 1e-9, 1e-9) for a, b in zip(corr[k], w["corr"])):
                    self.fail("wrong-row", f"{what}: data set {j} row {k}: correlations {list(corr[k])}, the structure has {w['corr']}")
                if float(y[k]) != w["value"]:
                    self.fail("wrong-row", f"{what}: data set {j} row {k}: value {y[k]!r}, {w['value']!r} was added")

    def fits(self, rows, new):
        return not rows or len(rows[0]["corr"]) == len(new["corr"])

    def do(self, op):
        from kmcpy.io.neb import NEBDataLoader, NEBEntry
        sc, o = self.sc, op["op"]
        if o == "loader":
            if len(self.loaders) < 3:
                self.loaders.append([NEBDataLoader(model=self.model(op["model"])), op["model"], []])
            return
        if o == "entry":
            s = sc["structures"][op["s"]]
            box = []
            ok = "good" if s["as"] == "object" else "bad" if (s["bad"] or "").endswith("file") else \
                "either" if not sites_of(sc, s)[0] else "good"
            meta = None if op["meta"] is None else {"note": op["meta"]}
            if self.attempt(f"entry from structure {op['s']}", ok, lambda: box.append(
                    NEBEntry.from_structure(self.source(op["s"]), op["value"], metadata=meta))):
                self.entries.append([box[0], op["s"], op["value"], op["meta"]])
            return
        lo = self.loaders[op["loader"] % len(self.loaders)]
        if o == "add":
            if op["bad"] == "type":
                self.attempt("adding something else", "bad", lambda: lo[0].add("POSCAR"))
                return
            if not self.entries:
                return
            e = self.entries[op["entry"] % len(self.entries)]
            used = op["model"] if op["model"] is not None else lo[1]
            kw = {} if op["model"] is None else {"model": self.model(op["model"])}
            if op["bad"] == "text":
                other = copy.copy(e[0])
                other.property_value = "barrier"
                self.attempt("adding an entry whose value is text", "bad", lambda: lo[0].add(other, **kw))
                return
            ok, new = "bad", None
            if used is not None:
                new = self.expect_row(e[1], e[2], e[3], used)
                ok = verdict(sc, sc["structures"][e[1]])
                if ok != "bad" and not self.fits(lo[2], new):
                    ok = "bad"
            if self.attempt(f"adding structure {e[1]} with model {used}", ok, lambda: lo[0].add(e[0], **kw)):
                lo[2].append(new)
                lo[1] = used
            return
        if o == "structure":
            used = op["model"] if op["model"] is not None else lo[1]
            kw = {} if op["model"] is None else {"model": self.model(op["model"])}
            if op["meta"] is not None:
                kw["metadata"] = {"note": op["meta"]}
            ok, new = "bad", None
            if used is not None:
                new = self.expect_row(op["s"], op["value"], op["meta"], used)
                ok = verdict(sc, sc["structures"][op["s"]])
                if ok != "bad" and not self.fits(lo[2], new):
                    ok = "bad"
            if self.attempt(f"adding structure {op['s']} with model {used}", ok,
                            lambda: lo[0].add_structure(self.source(op["s"]), op["value"], **kw)):
                lo[2].append(new)
                lo[1] = used
            return
        if o in ("batch", "from"):
            used = op["model"]
            metas = None if op["metas"] is None else [{"note": j} for j in range(len(op["ss"]) - (op["metas"] == "short"))]
            rows, ok, have = [], "good", lo[2] if o == "batch" else []
            shape = len(op["ss"]) == len(op["values"]) and (metas is None or len(metas) == len(op["ss"]))
            if shape:
                for j, (k, v) in enumerate(zip(op["ss"], op["values"])):
                    new = self.expect_row(k, v, None if metas is None else j, used)
                    one = verdict(sc, sc["structures"][k])
                    if one == "bad" or not self.fits(have + rows, new):
                        ok = "bad"
                        break
                    if one == "either":
                        ok = "either"
                    rows.append(new)
            else:
                ok = "bad"
            src = [self.source(k) for k in op["ss"]]
            what = f"adding structures {op['ss']} with model {used}"
            if o == "from":
                box = []
                if self.attempt(what, ok, lambda: box.append(NEBDataLoader.from_structures(
                        src, op["values"], self.model(used), metadata=metas))):
                    if len(self.loaders) < 3:
                        self.loaders.append([box[0], used, rows])
                    else:
                        self.loaders[op["loader"] % 3] = [box[0], used, rows]
                return
            n = len(lo[2])
            if self.attempt(what, ok, lambda: lo[0].add_structures(src, op["values"], model=self.model(used), metadata=metas)):
                lo[2].extend(rows)
                if rows:
                    lo[1] = used
            else:      # all or a beginning of the batch
                k = len(lo[0]) - n
                if not 0 <= k <= len(rows) or (k == len(rows) and ok == "good" and rows and shape and self.fault is None):
                    self.fail("row-count", f"{what}: failed, and {k} rows were added, at most {len(rows)} are valid")
                lo[2].extend(rows[:k])
                if k:
                    lo[1] = used
            return
        ok = "good" if lo[2] else "bad"
        if o == "json":
            path = os.path.normpath(os.path.join(op["dir"], op["prefix"] + ".json"))
            self.report("begin", path, json_content(lo[2]))
            if self.attempt(f"saving {path}", ok, lambda: lo[0].to(op["dir"], prefix=op["prefix"])):
                self.report("saved", path)
            return
        # fitting inputs
        w = {"one": 1.0, "two": 2.5, "each": [1.0 + 0.5 * (j % 3) for j in range(len(lo[2]))],
             "short": [1.0] * (len(lo[2]) + 1)}[op["weight"]]
        if op["weight"] == "short":
            ok = "bad"
        want = inputs_content(lo[2], w) if ok == "good" else None
        names = ["correlation_matrix.txt", "e_kra.txt", "weight.txt"]
        for n in names:
            self.report("begin", os.path.normpath(os.path.join(op["dir"], n)), want and want[n])
        box = []
        if not self.attempt("writing fitting inputs", ok, lambda: box.append(lo[0].write_fitting_inputs(op["dir"], weight=w))):
            return
        for n in names:
            self.report("saved", os.path.normpath(os.path.join(op["dir"], n)))
        if op["fit"] and len(lo[2]) >= 3 and len(lo[2][0]["corr"]) >= 2:
            self.fit(op, lo[2], w, box[0])

    def fit(self, op, rows, w, files):
        from kmcpy.models.fitting.fitter import LCEFitter
        kw = dict(alpha=op["alpha"], max_iter=20000, normalize=op["normalize"], lce_params_fname=None,
                  lce_params_history_fname=None)
        ref = os.path.join(os.path.dirname(self.src), "ref")
        os.makedirs(ref, exist_ok=True)
        np.savetxt(os.path.join(ref, "c"), [x["corr"] for x in rows])
        np.savetxt(os.path.join(ref, "e"), [x["value"] for x in rows])
        np.savetxt(os.path.join(ref, "w"), np.full(len(rows), w) if np.isscalar(w) else w)
        want, _, _ = LCEFitter().fit(ekra_fname=os.path.join(ref, "e"), weight_fname=os.path.join(ref, "w"),
                                     corr_fname=os.path.join(ref, "c"), keci_fname=os.path.join(ref, "k"), **kw)
        text = open(os.path.join(ref, "k")).read()
        self.report("begin", "keci.txt", ("keci", [float(x) for x in text.split()]))
        box = []
        if not self.attempt("fitting", "good", lambda: box.append(LCEFitter().fit(keci_fname="keci.txt", **files, **kw))):
            return
        self.report("saved", "keci.txt")
        got, _, y = box[0]
        if not all(same(a, b, 1e-6, 1e-6) for a, b in zip([*got.keci, got.empty_cluster], [*want.keci, want.empty_cluster])):
            self.fail("other-fit", f"fitted {list(got.keci)}, the data set gives {list(want.keci)}")
        if [float(v) for v in y] != [x["value"] for x in rows]:
            self.fail("other-fit", f"fitted to {list(y)}, the data set has {[x['value'] for x in rows]}")


def json_content(rows):
    return ("json", {"correlation_matrix": [x["corr"] for x in rows], "occupation_matrix": [x["occ"] for x in rows],
                     "properties": [x["value"] for x in rows], "metadata": [x["meta"] for x in rows], "n": len(rows)})


def inputs_content(rows, w):
    return {"correlation_matrix.txt": ("txt", [x["corr"] for x in rows]),
            "e_kra.txt": ("txt", [[x["value"]] for x in rows]),
            "weight.txt": ("txt", [[float(w if np.isscalar(w) else w[j])] for j in range(len(rows))])}


def matches(path, want):
    """Does the file hold exactly this?"""
    kind, data = want
    try:
        with open(path) as f:
            text = f.read()
        if kind == "json":
            got = json.loads(text)
            return (got["n_structures"] == data["n"] and got["metadata"] == data["metadata"]
                    and got["properties"] == data["properties"]
                    and [[int(v) for v in r] for r in got["occupation_matrix"]] == data["occupation_matrix"]
                    and close2(got["correlation_matrix"], data["correlation_matrix"]))
        got = [[float(v) for v in line.split()] for line in text.splitlines() if line.strip()]
        if kind == "keci":
            return text.endswith("\n") and close2([[v] for v, in got], [[v] for v in data], 1e-6)
        return text.endswith("\n") and close2(got, data)
    except (OSError, ValueError, KeyError, TypeError):
        return False


def close2(a, b, tol=1e-9):
    return len(a) == len(b) and all(len(x) == len(y) and all(same(u, v, tol, tol) for u, v in zip(x, y)) for x, y in zip(a, b))


# -- the run ---------------------------------------------------------------------------
def run(sc, ctx):
    root = os.path.join(os.path.realpath(ctx.scratch), "p")
    src = os.path.join(os.path.realpath(ctx.scratch), "src")
    os.makedirs(root)
    os.makedirs(src)
    for k, s in enumerate(sc["structures"]):
        if s["as"] != "object":
            make_structure(sc, s, src, f"s{k}")
    for k in range(len(sc["models"])):
        built(sc, k)
    files = {}       # path -> list of contents it may hold (None: absent)
    taken = extra = 0
    for n, rd in enumerate(sc["rounds"]):
        fault = rd["fault"]
        area = src if fault and fault["kind"].startswith("read") else root
        before = disk.snapshot(root)

        def go(report):
            os.chdir(root)
            se = Session(sc, root, src, report, fault)
            for op in rd["ops"]:
                se.do(op)
                se.compare(op["op"])
        msgs, code, log = disk.spawn(go, area, fault)
        died = disk.crashed(fault, code)
        fired = died or any(m[0] == "ops" and m[3] for m in msgs)
        if died and fault["kind"].startswith("power"):
            disk.power_loss(root, before, log, random.Random(fault["salt"]))
        if fired:
            ctx.fault(fault["kind"])
            extra += 1
        for m in msgs:
            if m[0] == "begin" and m[2] is not None:
                files.setdefault(m[1], [None]).append(m[2])
            elif m[0] == "saved":
                files[m[1]] = files[m[1]][-1:]
            elif m[0] == "taken":
                taken += 1
            elif m[0] == "refused":
                extra += 1
                ctx.probe("refused")
                if m[3] == "good" and not fired:
                    raise Violation("refused", f"{m[1]}: {m[2]}: {m[4]}")
        for path, allowed in sorted(files.items()):
            p = os.path.join(root, path)
            if not os.path.exists(p):
                if None not in allowed:
                    raise Violation("file-lost", f"{path} is gone after {fault and fault['kind']} in round {n}")
                files[path] = [None]
                continue
            hit = [a for a in allowed if a is not None and matches(p, a)]
            if not hit:
                with open(p, "rb") as f:
                    raise Violation("file-damaged", f"{path} after {fault and fault['kind']} in round {n}: neither the old nor "
                                                    f"the new data: {f.read()[:150]!r}")
            files[path] = [hit[-1]]
        ctx.log("round", n, canon([m[:3] if m[0] != "begin" else m[:2] for m in msgs if m[0] != "ops"]).replace(ctx.scratch, ""), code)
        ctx.state(canon([m[0] for m in msgs if m[0] in ("taken", "refused")]), fault and fault["kind"], fired)
        ctx.steps += len(rd["ops"])
    if taken and extra:
        ctx.nontrivial = True


# -- shrinking ------------------------------------------------------------------------------
def shrink(sc):
    for k in range(len(sc["rounds"])):
        if len(sc["rounds"]) > 1:
            n = copy.deepcopy(sc)
            del n["rounds"][k]
            yield n
        if sc["rounds"][k]["fault"]:
            n = copy.deepcopy(sc)
            n["rounds"][k]["fault"] = None
            yield n
        for j in range(len(sc["rounds"][k]["ops"]) - 1, 0, -1):
            n = copy.deepcopy(sc)
            del n["rounds"][k]["ops"][j]
            yield n
    for k, s in enumerate(sc["structures"]):
        for key, v in (("as", "object"), ("order", sorted(s["order"])), ("shift", [[0, 0, 0] for _ in s["shift"]])):
            if s[key] != v and not (key == "as" and (s["bad"] or "").endswith("file")):
                n = copy.deepcopy(sc)
                n["structures"][k][key] = v
                yield n
