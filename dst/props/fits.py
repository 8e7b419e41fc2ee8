"""the fit history: every completed fit stays, in order, with its own values."""
from __future__ import annotations

import contextlib
import copy
import datetime as dt
import functools
import gzip
import json
import math
import os
import random
import time as time_mod

import numpy as np

from ..core import HarnessError, Violation
from .. import disk, lce
from .common import same

LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("distinct event-log digests of runs in which at least one injected fault hit a file operation "
        "of a fit (or the history file was damaged or foreign) and the histories were examined afterwards")
REAL = ["kmcpy.models.fitting.fitter.LCEFitter.fit and LocalClusterExpansion.fit, scikit-learn Lasso on small data",
        "kmcpy.models.parameters (LCEModelParameters, LCEModelParamHistory)", "pandas, monty, ruamel.yaml, gzip, numpy",
        "Python file objects, libc calls up to the shim"]
STUB = ["disk below libc: crash, power loss, errors, short and torn writes (LD_PRELOAD shim and dst/disk.py)",
        "the clock (datetime.datetime.now, time.time): any instant, going back or standing still",
        "h5py (absent here): a minimal stand-in, in the .h5 runs"]
ASSUMPTIONS = ["rename is atomic and metadata operations reach the disk in order (journalling file system)",
               "fsync that returned 0 made the data durable", "one process fits at a time",
               "the .h5 format is exercised through a stand-in for h5py, which is not installed here"]
STATE_MEASURE = "distinct (history format, file operation hit, fault kind, outcome of the fit, entries) tuples"
NEEDS_JIT = False

HIST = ["h.json", "h.json", "h.yaml", "h.json.gz", "h.h5", "sub/h.json"]
RESULTS = ["fr.json", "fr.json", "fr.json.gz", "sub/fr.json"]
FIELDS = ["keci", "empty_cluster", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize",
          "orbit_fingerprints", "local_environment_hash"]


def warm(path):
    os.makedirs(path, exist_ok=True)
    golden(0, 0.5, True, None)
    golden(0, 0.5, True, 0)


def gen(r, tier, i):
    hist = r.choice(HIST + [None])
    results = r.choice(RESULTS + [None]) if hist else r.choice(RESULTS)
    rounds = []
    # instants as an administrator's clock may show them: ties, steps back, far future
    now = r.choice([1.7e9, 0.0, 1.2e9 + 0.123456, 3.9e9])
    k = 0
    for _ in range(r.choice([1, 2, 3, 3, 4])):
        fits = []
        for _ in range(r.choice([1, 1, 2, 3])):
            now += r.choice([0.0, 0.0, 1.0, 0.25, -3600.0, -0.000001, 86400.0 * 365, 59.9])
            now = min(max(now, 0.0), 4.0e9)
            k += 1
            fits.append({"data": r.randrange(4), "alpha": round(r.choice([1e-6, 0.01, 0.5, 2.0]) * (1 + 0.01 * k), 9)
                         if r.random() < 0.85 else 0.5, "normalize": r.random() < 0.6,
                         "np": r.random() < 0.3, "meta": r.choice([None, None, 0, 1, 2, 3]), "now": now,
                         "model": r.random() < 0.2, "params": r.choice(["p.json", "p.yaml", None])})
        kinds = disk.FAULTS + ["readerr", "readerr", "readshort"]
        rounds.append({"fits": fits, "tolerate": r.random() < 0.7,
                       "fault": disk.gen_fault(r, r.choice([8, 20, 60]), kinds) if r.random() < 0.8 else None})
    out = {"hist": hist, "results": results, "rounds": rounds}
    if hist and hist.endswith("json") and r.random() < 0.35:
        out["hist0"] = {"kind": r.choice(["list", "list", "records", "damaged", "foreign", "empty", "index"]),
                        "n": r.choice([1, 2, 11, 12]), "cut": r.random()}
    if results and results.endswith("json") and r.random() < 0.35:
        out["results0"] = {"kind": r.choice(["records", "records", "legacy", "damaged", "foreign", "empty"]),
                           "n": r.choice([1, 2, 11, 12]), "cut": r.random()}
    return out


# -- data --------------------------------------------------------------------------
@functools.lru_cache(maxsize=None)
def data(k):
    g = np.random.default_rng(100 + k)
    m, n = [(5, 3), (4, 2), (6, 4), (3, 2)][k]
    return (np.round(g.normal(size=(m, n)), 6), np.round(g.normal(size=m) * 150 + 200, 6),
            np.ones(m) if k % 2 else np.round(g.uniform(0.5, 2.0, size=m), 3))


META = [("fp", "hash"), ("numbers", "0123"), ("one", "1e5"), ("fp", None)]


def meta_of(j, n):
    """orbit fingerprints and environment hash handed to a fit: any text."""
    if j is None:
        return {}
    style, h = META[j]
    return {"orbit_fingerprints": ["%d" % (7 * i) if style == "numbers" else f"{style}-{i}" for i in range(n)],
            "local_environment_hash": h}


def write_data(d):
    os.makedirs(d, exist_ok=True)
    for k in range(4):
        x, y, w = data(k)
        np.savetxt(os.path.join(d, f"c{k}.txt"), x)
        np.savetxt(os.path.join(d, f"e{k}.txt"), y)
        np.savetxt(os.path.join(d, f"w{k}.txt"), w)


def fit_args(d, f):
    k = f["data"]
    return dict(alpha=np.float64(f["alpha"]) if f["np"] else f["alpha"], max_iter=20000,
                ekra_fname=os.path.join(d, f"e{k}.txt"), corr_fname=os.path.join(d, f"c{k}.txt"),
                weight_fname=os.path.join(d, f"w{k}.txt"), normalize=f["normalize"],
                **meta_of(f["meta"], data(k)[0].shape[1]))


@functools.lru_cache(maxsize=None)
def golden(k, alpha, normalize, meta):
    """What the fit yields when nothing is saved anywhere (deterministic regression)."""
    import tempfile
    from kmcpy.models.fitting.fitter import LCEFitter
    with tempfile.TemporaryDirectory(dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
        write_data(d)
        f = {"data": k, "alpha": alpha, "normalize": normalize, "meta": meta, "np": False}
        p, y_pred, y_true = LCEFitter().fit(keci_fname=os.path.join(d, "keci.txt"), lce_params_fname=None,
                                            lce_params_history_fname=None, fit_results_fname=None, **fit_args(d, f))
    out = fields(p)
    x, y, w = data(k)
    out.update({"weight": w.tolist(), "alpha": alpha, "normalize": normalize,
                "rmse": math.sqrt(float(np.mean((x @ np.array(out["keci"]) + out["empty_cluster"] - y) ** 2)))})
    why = not_a_fit(x, y, w, alpha, normalize, out["keci"], out["empty_cluster"])
    if why:
        raise Violation("not-the-fit", f"data {k}, alpha {alpha}, normalize {normalize}: {why}")
    loo = leave_one_out(x, y, alpha, normalize)
    if abs(out["loocv"] - loo) > 0.05 + 0.01 * loo:
        raise Violation("not-the-fit", f"data {k}, alpha {alpha}, normalize {normalize}: leave-one-out error "
                                       f"{out['loocv']!r}, by hand {loo!r}")
    m = meta_of(meta, x.shape[1])
    out.update({key: m.get(key) for key in ("orbit_fingerprints", "local_environment_hash")})
    return out


def not_a_fit(x, y, w, alpha, normalize, keci, empty):
    """Why these coefficients are not the weighted Lasso solution of the data (optimality conditions)."""
    c = np.array(keci, dtype=float)
    if c.shape != (x.shape[1],):
        return f"{c.shape} coefficients for {x.shape[1]} columns"
    if normalize:
        xo, yo = np.average(x, axis=0, weights=w), float(np.average(y, weights=w))
        sc = np.sqrt(np.sum((x - xo) ** 2, axis=0))
        sc[sc == 0.0] = 1.0
    else:
        sc = np.ones(x.shape[1])
    res = y - x @ c - empty
    scale = float(np.sum(w * np.abs(y - np.average(y, weights=w)))) + 1.0
    if abs(np.sum(w * res)) > 1e-3 * scale:
        return f"the weighted residuals sum to {np.sum(w * res)!r}"
    # weights as scikit-learn uses them: normalised to their mean
    v = w / np.mean(w)
    grad = (x / sc).T @ (v * res) / len(y)
    gs = 1e-3 * (1.0 + float(np.sum(v * np.abs(res))) + scale * 1e-2)
    for j, g in enumerate(grad):
        b = c[j] * sc[j]
        if (abs(b) > 1e-9 and abs(g - math.copysign(alpha, b)) > gs) or abs(g) > alpha + gs:
            return f"coefficient {j} is {c[j]!r} with gradient {g!r} at alpha {alpha}"
    return None


def leave_one_out(x, y, alpha, normalize):
    """Unweighted leave-one-out RMSE, each row predicted by a fit of the others."""
    from sklearn.linear_model import Lasso
    errs = []
    for i in range(len(y)):
        keep = [j for j in range(len(y)) if j != i]
        a, b, xi = x[keep], y[keep], x[i]
        if normalize:
            off = a.mean(axis=0)
            sc = np.sqrt(((a - off) ** 2).sum(axis=0))
            sc[sc == 0.0] = 1.0
            a, xi = (a - off) / sc, (xi - off) / sc
        m = Lasso(alpha=alpha, max_iter=20000).fit(a, b)
        errs.append(float(m.predict(xi[None])[0] - y[i]))
    return math.sqrt(sum(e * e for e in errs) / len(errs))


def fields(p):
    get = p.get if isinstance(p, dict) else lambda k: getattr(p, k)
    out = {}
    for k in FIELDS:
        v = get(k)
        out[k] = v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v
    return out


def entry(f):
    """The history entry a fit has to leave."""
    e = dict(golden(f["data"], f["alpha"], f["normalize"], f["meta"]))
    t = dt.datetime.fromtimestamp(f["now"])
    e["time_stamp"] = t.timestamp()
    e["time"] = t.strftime("%m/%d/%Y, %H:%M:%S")
    return e


def close(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(close(x, y) for x, y in zip(a, b)))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if {type(a), type(b)} == {float, type(None)}:   # NaN is written as null
            return math.isnan(a if b is None else b)
        return type(a) is type(b) and a == b
    return same(a, b, 1e-11, 1e-13)


def differs(got, want):
    for k in FIELDS:
        if not close(got.get(k), want[k]):
            return f"{k} is {got.get(k)!r} instead of {want[k]!r}"
    return None


def old_entry(j):
    """An entry written long ago."""
    return {"keci": [1.5 + j, -2.25, 1e-7 * (j + 1)], "empty_cluster": 100.125 + j, "weight": [1.0, 2.0],
            "alpha": 0.25, "time_stamp": 1.6e9 - j * 1000.5, "time": "09/13/2020, 12:26:%02d" % (40 - j),
            "rmse": 3.5, "loocv": 4.25 + j, "normalize": True, "orbit_fingerprints": None if j % 3 else ["11", "2e3", "z"],
            "local_environment_hash": None if j % 3 else "%d" % (900 + j)}


def seed_file(path, spec, slot):
    """Write the pre-existing history; returns its entries, or None if a fit must refuse it."""
    n = spec["n"]
    old = [old_entry(j) for j in range(n)]
    kind = spec["kind"]
    if kind == "empty":
        text, ret = "", None
    elif kind == "foreign":
        text, ret = json.dumps({"project": "something else", "notes": ["keep", 1]}), None
    elif slot == "results":
        recs = [dict(e) for e in old]
        if kind == "legacy":
            for e in recs:
                for k in ("normalize", "orbit_fingerprints", "local_environment_hash"):
                    del e[k]
            old = [dict(e, normalize=True, orbit_fingerprints=None, local_environment_hash=None) for e in recs]
        text, ret = json.dumps({str(j): e for j, e in enumerate(recs)}, indent=4), old
    elif kind == "index":   # a fit-results file in the place of the history
        text, ret = json.dumps({str(j): e for j, e in enumerate(old)}), None
    else:
        recs = [dict({k: v for k, v in e.items() if v is not None}, cluster_site_indices=[]) for e in old]
        text = json.dumps(recs if kind == "list" else {"@module": "kmcpy.models.parameters",
                                                         "@class": "LCEModelParamHistory", "history": recs}, indent=4)
        ret = old
    if kind == "damaged":
        text, ret = text[:max(1, int(spec["cut"] * (len(text) - 1)))], None
    with open(path, "w") as f:
        f.write(text)
    return ret


# -- one process ---------------------------------------------------------------------
@contextlib.contextmanager
def clock(instants):
    """datetime.now / time.time answer with the scenario's instants."""
    cur = [0.0]

    class Clock(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return dt.datetime.fromtimestamp(cur[0], tz)

        @classmethod
        def utcnow(cls):
            return dt.datetime.fromtimestamp(cur[0], dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    real, real_time = dt.datetime, time_mod.time
    dt.datetime = Clock
    time_mod.time = lambda: cur[0]
    try:
        yield cur
    finally:
        dt.datetime, time_mod.time = real, real_time


def life(report, sc, rd, root, datadir):
    from kmcpy.models.fitting.fitter import LCEFitter
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
    os.chdir(root)
    fitter = LCEFitter()
    with clock(None) as cur:
        for j, f in enumerate(rd["fits"]):
            cur[0] = f["now"]
            report("begin", j)
            who = LocalClusterExpansion() if f["model"] else fitter
            try:
                p, y_pred, y_true = who.fit(
                    keci_fname="keci.txt", lce_params_fname=f["params"], lce_params_history_fname=sc["hist"],
                    fit_results_fname=os.path.join(root, sc["results"]) if sc["results"] else None,
                    **fit_args(datadir, f))
            except (OSError, KeyboardInterrupt) as e:
                report("failed", j, type(e).__name__)
                if not rd["tolerate"]:
                    return
                continue
            except Exception as e:
                report("refused", j, type(e).__name__, str(e)[:200])
                if not rd["tolerate"]:
                    return
                continue
            report("done", j, fields(p))


def read_hist(path):
    """Entries of a parameter history, read twice: by kMCpy and independently."""
    from kmcpy.models.parameters import LCEModelParamHistory
    got = [fields(p) for p in LCEModelParamHistory.from_file(path).history]
    if path.endswith(".h5"):
        return got
    if path.endswith(".yaml"):
        from ruamel.yaml import YAML
        with open(path) as f:
            raw = YAML(typ="safe").load(f)
    else:
        with (gzip.open(path, "rt") if path.endswith(".gz") else open(path)) as f:
            raw = json.load(f)
    raw = raw["history"] if isinstance(raw, dict) else raw
    if len(raw) != len(got):
        raise Violation("entry-lost", f"the history file holds {len(raw)} records, loading it gives {len(got)}")
    for j, (a, b) in enumerate(zip(raw, got)):
        why = differs(a, b)
        if why:
            raise Violation("entry-altered", f"record {j} of {os.path.basename(path)} loads differently: {why}")
    return got


def read_results(path):
    from kmcpy.models.fitting.fitter import LCEFitter
    with (gzip.open(path, "rt") if path.endswith(".gz") else open(path)) as f:
        raw = json.load(f)
    keys = [int(k) for k in raw]
    if keys != sorted(keys) or len(set(keys)) != len(keys):
        raise Violation("entry-reordered", f"fit-results records are numbered {keys}")
    got = [fields({"normalize": True, **raw[str(k)]}) for k in keys]   # older files lack it
    if got:
        latest = fields(LCEFitter.from_file(path).model_parameters)
        why = differs(latest, got[-1])
        if why:
            raise Violation("entry-altered", f"LCEFitter.from_file does not return the latest fit: {why}")
    return got


def run(sc, ctx):
    from ..fakeh5 import installed
    with installed():
        _run(sc, ctx)


def _run(sc, ctx):
    root = os.path.join(ctx.scratch, "p")
    datadir = os.path.join(ctx.scratch, "data")
    os.makedirs(os.path.join(root, "sub"))
    with open(os.path.join(root, "sub", "keep"), "w"):
        pass
    write_data(datadir)
    slots = {}
    for slot, name, first in (("hist", sc["hist"], sc.get("hist0")), ("results", sc["results"], sc.get("results0"))):
        if not name:
            continue
        st = slots[slot] = {"name": name, "entries": [], "frozen": None, "exists": False}
        if first:
            path = os.path.join(root, name)
            ret = seed_file(path, first, slot)
            st["exists"] = True
            if ret is None:
                st["frozen"] = open(path, "rb").read()
                ctx.nontrivial = True
                ctx.fault("history-" + first["kind"])
            else:
                st["entries"] = ret
    frozen = any(s["frozen"] is not None for s in slots.values())
    for k, rd in enumerate(sc["rounds"]):
        want = {j: entry(f) for j, f in enumerate(rd["fits"])}
        before = disk.snapshot(root)
        fault = rd["fault"]
        msgs, code, log = disk.spawn(lambda rep: life(rep, sc, rd, root, datadir), root, fault)
        died = disk.crashed(fault, code)
        if died and fault["kind"].startswith("power"):
            disk.power_loss(root, before, log, random.Random(fault["salt"]))
        fired = died or any(m[0] == "ops" and m[3] for m in msgs)
        if fired:
            ctx.fault(fault["kind"])
            ctx.nontrivial = True
        outcome = {}
        for m in msgs:
            if m[0] == "begin":
                outcome[m[1]] = "open"
            elif m[0] == "done":
                outcome[m[1]] = "done"
                why = differs(m[2], want[m[1]])
                if why:
                    raise Violation("wrong-return", f"fit {m[1]} of round {k} returned {why}")
                if frozen:
                    raise Violation("history-ignored", f"fit {m[1]} of round {k} returned normally although "
                                    "a history file cannot be continued")
            elif m[0] == "failed":
                outcome[m[1]] = "failed"
                ctx.probe("fit-reported-" + m[2])
            elif m[0] == "refused":
                outcome[m[1]] = "failed"
                ctx.probe("fit-refused-" + m[2])
                if not frozen and not (fired and fault["kind"].startswith(("read", "int"))):
                    raise Violation("fit-refused", f"fit {m[1]} of round {k} failed without a fault: {m[2]}: {m[3]}")
        if not fired:
            for j, o in outcome.items():
                if o == "failed" and not frozen:
                    raise Violation("fit-refused", f"fit {j} of round {k} failed although no fault was injected")
        ctx.log("round", k, sorted(outcome.items()), code)
        for slot, st in sorted(slots.items()):
            examine(slot, st, root, rd, k, outcome, want, ctx, fault if fired else None)
        ctx.steps += len(outcome)


def examine(slot, st, root, rd, k, outcome, want, ctx, fault):
    path = os.path.join(root, st["name"])
    where = f"{st['name']} after {fault and fault['kind']} in round {k}"
    if st["frozen"] is not None:
        if not os.path.exists(path) or open(path, "rb").read() != st["frozen"]:
            raise Violation("history-overwritten", f"{where}: a file kMCpy could not continue was changed")
        ctx.probe("unreadable-history-kept")
        return
    if not os.path.exists(path):
        if st["exists"] or "done" in outcome.values():
            raise Violation("history-lost", f"{where}: the file is gone")
        return
    try:
        got = read_hist(path) if slot == "hist" else read_results(path)
    except Violation:
        raise
    except Exception as e:
        raise Violation("history-damaged", f"{where}: {type(e).__name__}: {str(e)[:200]}")
    old = st["entries"]
    for j, e in enumerate(old):
        if j >= len(got):
            raise Violation("entry-lost", f"{where}: {len(got)} entries, {len(old)} were there before")
        why = differs(got[j], e)
        if why:
            raise Violation("entry-altered", f"{where}: entry {j} of {len(old)} earlier ones: {why}")
    new = got[len(old):]
    p = 0
    for j in sorted(outcome):
        hit = p < len(new) and differs(new[p], want[j]) is None
        if hit:
            p += 1
        elif outcome[j] == "done":
            why = differs(new[p], want[j]) if p < len(new) else "no further entry"
            raise Violation("entry-missing", f"{where}: fit {j} returned normally but its entry is not there: {why}")
        if fault is not None and outcome[j] != "done":
            ctx.state(slot, os.path.splitext(st["name"])[1], fault["n"], fault["kind"], outcome[j], hit)
            ctx.probe(f"interrupted-fit-{'recorded' if hit else 'not-recorded'}")
    if p < len(new):
        raise Violation("extra-entry", f"{where}: {len(new) - p} entries beyond the {p} of this round's fits")
    st["entries"] = got
    st["exists"] = True


def shrink(sc):
    for slot in ("hist", "results"):
        if sc[slot] and sc["hist"] and sc["results"]:
            c = copy.deepcopy(sc)
            c[slot] = None
            c.pop(slot + "0", None)
            yield c
        if slot + "0" in sc:
            c = copy.deepcopy(sc)
            del c[slot + "0"]
            yield c
    for i, rd in enumerate(sc["rounds"]):
        c = copy.deepcopy(sc)
        del c["rounds"][i]
        if c["rounds"]:
            yield c
        for j in range(len(rd["fits"])):
            if len(rd["fits"]) > 1:
                c = copy.deepcopy(sc)
                del c["rounds"][i]["fits"][j]
                yield c
        if rd["fault"] is not None:
            c = copy.deepcopy(sc)
            c["rounds"][i]["fault"] = None
            yield c
            for v in sorted({1, rd["fault"]["n"] // 2, rd["fault"]["n"] - 1}):
                if 1 <= v < rd["fault"]["n"]:
                    c = copy.deepcopy(sc)
                    c["rounds"][i]["fault"]["n"] = v
                    yield c
