"""gathering: every run's rows once, with its own values, whatever the disk order."""
from __future__ import annotations

import contextlib
import copy
import csv
import fnmatch
import gzip
import io
import json
import os
import random

from ..core import Violation, canon
from .. import disk
from .. import world as W
from .common import same, shrink_world

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("distinct event-log digests of runs in which tables of at least two simulations were gathered, or a "
        "gathering met a damaged file or a read fault")
REAL = ["kmcpy.tools.gather_kmc_data.gather_data", "kmcpy.tools.gather_mc_data (gather_data, get_occ, generate_supercell)",
        "KMC.run and its result writers", "pandas, glob2 and pymatgen readers"]
STUB = ["directory listing order (os.listdir, os.scandir)", "disk below libc (LD_PRELOAD shim)",
        "joblib's worker pool: the jobs run in this process in a seeded order, results come back in order of submission",
        "CASM's Monte Carlo output (written by the harness)"]
ASSUMPTIONS = ["result files are named results_<composition>_<index>.csv.gz, Monte Carlo folders comp_<composition>_<index>",
               "floating-point columns are compared at 1e-12 (pandas' fast parser)"]
STATE_MEASURE = "distinct (tool, pattern, number of files, damaged files, fault kind, outcome) tuples"

DIRS = [".", "plain", "scan_2", "series_0.7_9", "a_1_2_3", "deep/x_4_5"]
COMPS = ["0.1", "0.25", "1.0", "2", "0.05", "3e-1"]


# -- scenario -----------------------------------------------------------------------
def gen(r, tier, i):
    if r.random() < 0.3:
        return gen_mc(r)
    dirs = r.sample(DIRS, r.choice([1, 2, 3]))
    ids = [(r.choice(COMPS), r.randint(0, 12)) for _ in range(r.choice([1, 2, 3, 4]))]
    worlds = [W.gen_world(r, max_sites=r.choice([6, 10]), model=r.choice(["table", "barrier"]), passes=(1, 3),
                          eq=(0, 1), rare_zero=False) for _ in range(2)]
    ops = []
    for _ in range(r.choice([2, 4, 6])):
        c, k = r.choice(ids)
        ops.append({"op": "run", "dir": r.choice(dirs), "comp": c, "index": k, "world": r.randrange(2),
                    "seed": r.randrange(2) if r.random() < 0.5 else r.randrange(1000),
                    "off": r.sample(["msd", "havens_ratio", "conductivity", "correlation_factor"], 2) if r.random() < 0.2 else [], "interval": r.choice([None, 1, 2]),
                    "fault": disk.gen_fault(r, r.choice([5, 15, 30])) if r.random() < 0.2 else None})
        if r.random() < 0.1:
            ops.append({"op": "damage", "how": r.choice(["cut", "cut", "flip", "empty"]), "at": r.random(), "salt": r.randrange(1000)})
        if r.random() < 0.5:
            ops.append(gather_op(r, dirs))
    ops.append(gather_op(r, dirs))
    return {"tool": "kmc", "worlds": worlds, "ops": ops}


def gather_op(r, dirs):
    d = r.choice(dirs)
    here = "" if d == "." else d + "/"
    return {"op": "gather", "pattern": r.choice([here + "results*.csv.gz"] * 3 + ["**/results_*.csv.gz", "*/results*.csv.gz"]),
            "abs": r.random() < 0.5, "salt": r.randrange(10 ** 6),
            "fault": disk.gen_fault(r, r.choice([3, 8]), ["readerr", "readshort"]) if r.random() < 0.2 else None}


def gen_mc(r):
    n = r.choice([2, 3, 4])
    sites, seen = [], set()
    for k in range(n + 2):
        x = tuple(round(r.randrange(0, 8) / 8.0, 3) for _ in range(3))
        if x in seen:
            continue
        seen.add(x)
        sp = "Na" if k == 0 else r.choice(["Na", "Si", "Zr", "O"])
        sites.append([sp, list(x)])
    locs, used = [], set()
    for _ in range(r.choice([1, 2, 4, 6])):
        c, k = r.choice(COMPS), r.randint(0, 12)
        if (c, k) in used:
            continue
        used.add((c, k))
        locs.append({"comp": c, "index": k, "salt": r.randrange(10 ** 6),
                     "damage": r.choice([None] * 9 + ["missing", "lines"])})
    return {"tool": "mc", "dir": r.choice(["mc", "mc_1_2", "."]), "sites": sites,
            "lattice": [[round(r.uniform(5, 9), 3), 0, 0], [0.3, round(r.uniform(5, 9), 3), 0], [0, 0.2, round(r.uniform(5, 9), 3)]],
            "shape": [r.choice([1, 1, 2]), r.choice([1, 2]), 1], "locs": locs,
            "ops": [{"op": "gather", "salt": r.randrange(10 ** 6), "abs": r.random() < 0.5,
                     "fault": disk.gen_fault(r, r.choice([3, 8]), ["readerr", "readshort"]) if r.random() < 0.2 else None}
                    for _ in range(r.choice([1, 2]))]}


# -- seams --------------------------------------------------------------------------
@contextlib.contextmanager
def listing_order(salt):
    """Directories list their entries in a seeded order."""
    r = random.Random(salt)
    listdir, scandir = os.listdir, os.scandir

    def ls(*a):
        out = sorted(listdir(*a))
        r.shuffle(out)
        return out

    class Scan:
        def __init__(self, *a):
            with scandir(*a) as it:
                self.items = sorted(it, key=lambda e: e.name)
            r.shuffle(self.items)
            self.it = iter(self.items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

    os.listdir, os.scandir = ls, Scan
    try:
        yield
    finally:
        os.listdir, os.scandir = listdir, scandir


class Pool:
    """joblib.Parallel: jobs finish in any order, results come back in theirs."""

    def __init__(self, salt):
        self.r = random.Random(salt)

    def __call__(self, *a, **k):
        return self._call

    def _call(self, jobs):
        jobs = list(jobs)
        order = list(range(len(jobs)))
        self.r.shuffle(order)
        out = [None] * len(jobs)
        for j in order:
            f, a, kw = jobs[j]
            out[j] = f(*a, **kw)
        return out


# -- KMC tables -----------------------------------------------------------------------
def run(sc, ctx):
    root = os.path.join(os.path.realpath(ctx.scratch), "p")
    os.makedirs(root)
    if sc["tool"] == "mc":
        return run_mc(sc, ctx, root)
    for op in sc["ops"]:
        if op["op"] == "run":
            one_run(sc, op, ctx, root)
        elif op["op"] == "damage":
            files = tables(root)
            if not files:
                continue
            p = os.path.join(root, files[op["salt"] % len(files)])
            with open(p, "rb") as f:
                b = f.read()
            if op["how"] == "cut":
                b = b[:int(len(b) * op["at"] * 0.99)]
            elif op["how"] == "empty":
                b = b""
            elif len(b) > 30:
                k = 12 + int(op["at"] * (len(b) - 13))
                b = b[:k] + bytes([b[k] ^ 0x10]) + b[k + 1:]
            with open(p, "wb") as f:
                f.write(b)
            ctx.fault("damage-" + op["how"])
            ctx.log("damage", op["how"])
        else:
            gather_kmc(sc, op, ctx, root)


def tables(root):
    out = []
    for d, _, names in os.walk(root):
        for n in sorted(names):
            if fnmatch.fnmatch(n, "results_*.csv.gz") and not n.startswith("results_units"):
                out.append(os.path.relpath(os.path.join(d, n), root))
    return sorted(out)


def one_run(sc, op, ctx, root):
    w = sc["worlds"][op["world"]]
    d = os.path.join(root, op["dir"])
    os.makedirs(d, exist_ok=True)
    label = f"{op['comp']}_{op['index']}"
    before = disk.snapshot(root)

    def go(report):
        os.chdir(d)
        b = W.build(dict(w, cfg=dict(w["cfg"], random_seed=op["seed"])))
        k = b.kmc()
        if op["interval"]:
            k.set_property_frequency(interval=op["interval"])
        for name in op["off"]:
            k.set_property_enabled(name, False)
        try:
            tr = k.run(label=label)
        except (Exception, KeyboardInterrupt) as e:
            report("failed", type(e).__name__)
            return
        report("ran", {n: [float(x) for x in v] for n, v in tr.results.items()}, float(k.simulation_state.time))
    msgs, code, log = disk.spawn(go, root, op["fault"])
    fired = disk.crashed(op["fault"], code) or any(m[0] == "ops" and m[3] for m in msgs)
    if fired:
        ctx.fault(op["fault"]["kind"])
        if disk.crashed(op["fault"], code) and op["fault"]["kind"].startswith("power"):
            disk.power_loss(root, before, log, random.Random(op["fault"]["salt"]))
    for m in msgs:
        if m[0] == "ran":
            got = rows_of(os.path.join(d, f"results_{label}.csv.gz"))
            n = len(m[1]["time"])
            if not isinstance(got, list) or len(got) != n or any(
                    not same(g[c], m[1][c][j], 1e-12) for j, g in enumerate(got) for c in m[1]):
                raise Violation("table-not-of-the-run", f"results_{label}.csv.gz does not hold the {n} rows of the run that wrote it")
            ctx.sim_time += m[2]
            ctx.steps += n
    ctx.log("run", op["dir"], label, op["seed"], canon([m[0] for m in msgs]))


def rows_of(path):
    """Independent reader: rows, or a string saying what is wrong."""
    try:
        with gzip.open(path, "rt", newline="") as f:
            rows = list(csv.reader(f))
    except (OSError, EOFError, ValueError) as e:
        return type(e).__name__
    except Exception as e:   # zlib.error
        return type(e).__name__
    if not rows:
        return "empty"
    head = rows[0]
    return [{c: (float("nan") if v == "" else float(v)) for c, v in zip(head, row)} for row in rows[1:]]


def matches(root, pattern):
    if pattern.startswith("**/"):
        pat = pattern[3:]
        return [t for t in tables(root) if fnmatch.fnmatch(os.path.basename(t), pat)]
    want = pattern.split("/")
    out = []
    for t in tables(root):
        parts = t.split("/")
        if len(parts) == len(want) and all(fnmatch.fnmatch(a, b) for a, b in zip(parts, want)):
            out.append(t)
    return out


def gather_kmc(sc, op, ctx, root):
    files = matches(root, op["pattern"])
    want, bad = [], []
    for t in files:
        _, c, k = os.path.basename(t)[:-len(".csv.gz")].split("_")
        rows = rows_of(os.path.join(root, t))
        if isinstance(rows, str):
            bad.append(t)
            continue
        for j, row in enumerate(rows):
            want.append((float(c), int(k), j, row))

    def go(report):
        from kmcpy.tools import gather_kmc_data
        os.chdir(root)
        path = os.path.join(root, op["pattern"]) if op["abs"] else op["pattern"]
        with listing_order(op["salt"]), contextlib.redirect_stdout(io.StringIO()):
            try:
                df = gather_kmc_data.gather_data(path)
            except Exception as e:
                report("failed", type(e).__name__, str(e)[:200])
                return
            report("table", list(df.columns), [[float(x) for x in row] for row in df.itertuples(index=False)])
    before = disk.snapshot(root)
    msgs, code, _ = disk.spawn(go, root, op["fault"])
    fired = any(m[0] == "ops" and m[3] for m in msgs)
    if fired:
        ctx.fault(op["fault"]["kind"])
    if disk.snapshot(root) != before:
        raise Violation("gathering-changed-files", f"{op['pattern']}: result files were changed by reading them")
    got = next((m for m in msgs if m[0] in ("failed", "table")), None)
    if got is None:
        raise Violation("gathering-died", f"{op['pattern']}: exit status {code}")
    what = f"{op['pattern']} over {files}"
    ctx.log("gather", op["pattern"], len(files), len(bad), got[0] if got[0] == "failed" else len(got[2]))
    ctx.state("kmc", op["pattern"], len(files), len(bad), fired and op["fault"]["kind"], got[0])
    if len(files) > 1 or bad or fired:
        ctx.nontrivial = True
    if got[0] == "failed":
        if files and not bad and not fired:
            raise Violation("gathering-refused", f"{what}: all files are whole, but {got[1]}: {got[2]}")
        return
    if bad:
        raise Violation("damaged-file-accepted", f"{what}: {bad[0]} is unreadable, yet a table was returned")
    cols, rows = got[1], got[2]
    for c in ("comp", "structure_index", "n_pass"):
        if c not in cols:
            raise Violation("column-missing", f"{what}: no column {c}: {cols}")
    have = {}
    for row in rows:
        v = dict(zip(cols, row))
        have.setdefault((v["comp"], int(v["structure_index"]), int(v["n_pass"])), []).append(v)
    for c, k, j, row in want:
        left = have.get((c, k, j), [])
        hit = next((v for v in left if all(n in v and same(v[n], row[n], 1e-12) for n in row)), None)
        if hit is None:
            raise Violation("row-lost-or-wrong", f"{what}: row {j} of composition {c}, structure {k} is not in the table "
                            f"({len(left)} candidates left)")
        left.remove(hit)
    extra = sum(len(v) for v in have.values())
    if extra:
        k = next(k for k, v in have.items() if v)
        raise Violation("row-twice-or-foreign", f"{what}: {extra} rows too many, e.g. {k}")


# -- Monte Carlo folders ---------------------------------------------------------------
def run_mc(sc, ctx, root):
    base = os.path.join(root, sc["dir"])
    os.makedirs(base, exist_ok=True)
    prim(sc, os.path.join(root, "prim.json"))
    from kmcpy.tools import gather_mc_data as tool
    with contextlib.redirect_stdout(io.StringIO()):
        template = tool.generate_supercell(os.path.join(root, "prim.json"), sc["shape"])
    active = [s for s in sc["sites"] if s[0] in ("Na", "Si")]
    cells = sc["shape"][0] * sc["shape"][1] * sc["shape"][2]
    if len(template) != len(active) * cells:
        raise Violation("wrong-supercell", f"{len(template)} active sites in the supercell of {sc['sites']} x {sc['shape']}")
    want, bad = {}, []
    for loc in sc["locs"]:
        d = os.path.join(base, f"comp_{loc['comp']}_{loc['index']}", "conditions.0", "trajectory")
        os.makedirs(d)
        text, occ = poscar(sc, template, loc["salt"])
        if loc["damage"] == "lines":
            lines = text.splitlines()
            text = "\n".join(lines[:-1 - loc["salt"] % max(1, len(lines) - 8)]) + "\n"
        if loc["damage"] != "missing":
            with open(os.path.join(d, "POSCAR.final"), "w") as f:
                f.write(text)
        if loc["damage"]:
            bad.append(loc)
            ctx.fault("damage-" + loc["damage"])
        want[float(loc["comp"]), loc["index"]] = want.get((float(loc["comp"]), loc["index"]), []) + [occ]
    for op in sc["ops"]:
        def go(report):
            os.chdir(root)
            import joblib
            tool.Parallel = joblib.Parallel = Pool(op["salt"])
            path = os.path.join(base if op["abs"] else sc["dir"], "comp_*")
            with listing_order(op["salt"]), contextlib.redirect_stdout(io.StringIO()):
                try:
                    df = tool.gather_data(path, template)
                except Exception as e:
                    report("failed", type(e).__name__, str(e)[:200])
                    return
                report("table", [(float(a), int(b), [int(x) for x in c]) for a, b, c in
                                 zip(df["comp"], df["structure_index"], df["occ"])])
        msgs, code, _ = disk.spawn(go, root, op["fault"])
        fired = any(m[0] == "ops" and m[3] for m in msgs)
        if fired:
            ctx.fault(op["fault"]["kind"])
        got = next((m for m in msgs if m[0] in ("failed", "table")), None)
        what = f"{len(sc['locs'])} Monte Carlo folders"
        if got is None:
            raise Violation("gathering-died", f"{what}: exit status {code}")
        ctx.log("mc", got[0], canon(got[1]) if got[0] == "table" else got[1])
        ctx.state("mc", len(sc["locs"]), len(bad), fired and op["fault"]["kind"], got[0])
        if len(sc["locs"]) > 1 or bad or fired:
            ctx.nontrivial = True
        if got[0] == "failed":
            if not bad and not fired:
                raise Violation("gathering-refused", f"{what}: all files are whole, but {got[1]}: {got[2]}")
            continue
        if bad:
            raise Violation("damaged-file-accepted", f"{what}: comp_{bad[0]['comp']}_{bad[0]['index']} is {bad[0]['damage']}, yet a table was returned")
        have = {}
        for c, k, occ in got[1]:
            have.setdefault((c, k), []).append(occ)
        for key in sorted(set(want) | set(have)):
            if sorted(want.get(key, [])) != sorted(have.get(key, [])):
                raise Violation("row-lost-or-wrong", f"{what}: {key} has {have.get(key)}, its folder holds {want.get(key)}")
        if [x[:2] for x in got[1]] != sorted(x[:2] for x in got[1]):
            raise Violation("table-unsorted", f"{what}: rows in order {[x[:2] for x in got[1]]}")
        ctx.steps += len(got[1])


def prim(sc, path):
    with open(path, "w") as f:
        json.dump({"lattice_vectors": sc["lattice"], "basis": [
            {"coordinate": x, "occupant_dof": ["Si", "P"] if s == "Si" else ["Na", "Va"] if s == "Na" else [s]}
            for s, x in sc["sites"]]}, f)


def poscar(sc, template, salt):
    """A final configuration: vacancies, Si or P, the frozen sites; in any order and any cell image."""
    r = random.Random(salt)
    sites, occ = [], []
    for s in template:
        sp, x = s.specie.symbol, [float(v) for v in s.frac_coords]
        if sp == "Na":
            occ.append(-1 if r.random() < 0.6 else 1)
            if occ[-1] == -1:
                sites.append((sp, x))
        else:
            occ.append(-1 if r.random() < 0.5 else 1)
            sites.append(("Si" if occ[-1] == -1 else "P", x))
    if not any(s == "Na" for s, _ in sites):
        k = next(j for j, s in enumerate(template) if s.specie.symbol == "Na")
        occ[k] = -1
        sites.append(("Na", [float(v) for v in template[k].frac_coords]))
    sites.append(("O", [0.0613, 0.0417, 0.0231]))
    r.shuffle(sites)
    sites.sort(key=lambda t: ["O", "P", "Na", "Si"].index(t[0]))
    kinds = [k for k in ["O", "P", "Na", "Si"] if any(s == k for s, _ in sites)]
    m = template.lattice.matrix
    out = ["final", "1.0"] + [" ".join(f"{v:.14f}" for v in row) for row in m]
    out += [" ".join(kinds), " ".join(str(sum(s == k for s, _ in sites)) for k in kinds), "Direct"]
    for _, x in sites:
        out.append(" ".join(f"{v + r.choice([0, 0, 0, 1, -1]):.14f}" for v in x))
    return "\n".join(out) + "\n", occ


# -- shrinking -------------------------------------------------------------------------
def shrink(sc):
    for k in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            n = copy.deepcopy(sc)
            del n["ops"][k]
            yield n
        if sc["ops"][k].get("fault"):
            n = copy.deepcopy(sc)
            n["ops"][k]["fault"] = None
            yield n
        for key, v in (("abs", False), ("interval", None), ("salt", 0), ("seed", 0)):
            if key in sc["ops"][k] and sc["ops"][k][key] != v and sc["ops"][k]["op"] != "damage":
                n = copy.deepcopy(sc)
                n["ops"][k][key] = v
                yield n
    if sc["tool"] == "mc":
        for k in range(len(sc["locs"])):
            if len(sc["locs"]) > 1:
                n = copy.deepcopy(sc)
                del n["locs"][k]
                yield n
    else:
        for k, w in enumerate(sc["worlds"]):
            for v in shrink_world(w):
                n = copy.deepcopy(sc)
                n["worlds"][k] = v
                yield n


def warm(path):
    from .common import warm_jit
    warm_jit(path)
    from kmcpy.tools import gather_kmc_data  # noqa: F401
    from kmcpy.tools import gather_mc_data as t
    sc = {"sites": [["Na", [0, 0, 0]], ["Si", [0.5, 0.5, 0.5]], ["O", [0.25, 0.5, 0.5]]], "shape": [2, 1, 1],
          "lattice": [[6.0, 0, 0], [0.3, 6.0, 0], [0, 0.2, 6.0]]}
    os.makedirs(path, exist_ok=True)
    with contextlib.redirect_stdout(io.StringIO()):
        prim(sc, os.path.join(path, "prim.json"))
        template = t.generate_supercell(os.path.join(path, "prim.json"), sc["shape"])
        with open(os.path.join(path, "POSCAR.final"), "w") as f:
            f.write(poscar(sc, template, 1)[0])
        t.get_occ(os.path.join(path, "POSCAR.final"), template)
