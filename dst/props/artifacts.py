"""saved inputs, models and results: complete and equal, or the failure is reported."""
from __future__ import annotations

import copy
import csv
import functools
import gzip
import json
import math
import os
import random

import numpy as np

from ..core import HarnessError, Violation, canon
from .. import disk, lce
from .. import world as W
from .common import same, shrink_with_world

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("distinct event-log digests of runs in which at least one injected fault hit a file "
        "operation of a save, load or result writer and the surviving files were examined")
REAL = ["every artifact writer and reader: kmcpy.event EventLib/Event, LocalBarrierModel, LocalClusterExpansion, "
        "CompositeLCEModel, SiteEnergyModel, LCEModelParameters, LCEModelParamHistory, LCEFitter, Configuration",
        "kmcpy.simulator.results and tracker through KMC.run", "monty, ruamel.yaml, gzip, numpy and pandas writers",
        "Python file objects, libc calls up to the shim"]
STUB = ["disk below libc: crash, power loss, errors, short and torn writes (LD_PRELOAD shim and dst/disk.py)",
        "h5py (absent here): a minimal stand-in that writes through Python file objects, in the .h5 runs",
        "seeded rate-table model in the result-file runs"]
ASSUMPTIONS = ["rename is atomic and metadata operations reach the disk in order (journalling file system)",
               "fsync that returned 0 made the data durable",
               "the .h5 format is exercised through a stand-in for h5py, which is not installed here",
               "local_site_order of fitted parameters is not part of the saved form (by design of as_dict)"]
STATE_MEASURE = "distinct (artifact kind, file operation hit, fault kind, surviving file: old/new/none) tuples"

# kind -> file names it may be saved under
FILES = {
    "events": ["events.json", "events.json.gz", "link.json"],
    "event": ["event.json"],
    "barrier": ["barrier.json", "sub/barrier.json"],
    "lce": ["lce.json"],
    "composite": ["composite.json", "sub/composite.json"],
    "site": ["site.json"],
    "params": ["params.json", "params.yaml", "params.h5"],
    "history": ["history.json", "history.yaml", "history.h5"],
    "fitter": ["fitter.json"],
    "config": ["config.json", "config.yaml", "sub/config.yml"],
    "flow": ["flow.yaml"],
}


def gen(r, tier, i):
    if r.random() < 0.22:
        return gen_results(r)
    kinds = r.sample(sorted(FILES), r.choice([1, 1, 2, 3]))
    files = {}
    for k in kinds:
        files[r.choice(FILES[k])] = k
    names = sorted(files)
    rounds = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        acts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice(names)
            acts.append({"do": "save" if r.random() < 0.85 else "load", "file": n, "spec": r.randrange(12),
                         "section": r.choice(["kmc", "other", "task"])})
        kinds_ = disk.FAULTS
        if any(a["do"] == "load" or files[a["file"]] == "flow" for a in acts) and r.random() < 0.6:
            kinds_ = ["readerr", "readshort"]
        rounds.append({"acts": acts, "tolerate": r.random() < 0.6,
                       "fault": disk.gen_fault(r, r.choice([6, 15, 40]), kinds_) if r.random() < 0.85 else None})
    out = {"files": files, "salt": r.randrange(6), "rounds": rounds,
           "cut": r.random() if r.random() < 0.3 else None}
    if "flow.yaml" in files:
        out["flow"] = r.choice(["", "", "other", "damaged", "lists"])
    return out


# -- the artifacts ------------------------------------------------------------------
@functools.lru_cache(maxsize=256)
def made(kind, salt, spec):
    """(object, view) of one version of an artifact."""
    r = random.Random(f"{kind}|{salt}|{spec}")
    obj = MAKE[kind](r)
    return obj, view(kind, obj)


def _world(r, **kw):
    return W.gen_world(r, max_sites=10, bare=0.0, **kw)


def mk_events(r):
    w = _world(r, model="table")
    b = W.build(w, with_deps=r.random() < 0.7)
    if r.random() < 0.3:
        b.lib.generate_event_dependencies()
    b.lib.set_index_metadata(b.order)
    return b.lib


def mk_event(r):
    from kmcpy.event import Event
    n = r.randint(2, 30)
    return Event(mobile_ion_indices=tuple(r.sample(range(n), 2)),
                 local_env_indices=tuple(r.randrange(n) for _ in range(r.randint(0, 12))))


def mk_barrier(r):
    w = _world(r, model="barrier")
    b = W.build(w)
    if r.random() < 0.5:
        return _Bound(b.model, b, w)
    # named properties, several species per rule, constant rules
    from kmcpy.models.local_barrier_model import LocalBarrierModel
    labels = sorted({s for v in w["mapping"].values() for s in v})
    rules = []
    for k, rule in enumerate(w["model"]["rules"]):
        rule = dict(rule, name=f"règle {k}")
        rule["properties"] = {"alt": r.uniform(1, 900)}
        if rule["type"] == "species_count" and len(labels) > 1:
            rule["species"] = r.sample(labels, 2)
        rules.append(rule)
    if r.random() < 0.3:
        rules.append({"type": "constant", "properties": {"barrier": 77.25, "alt": 3.5}})
    m = LocalBarrierModel(
        rules=rules, name="named", default_properties={"barrier": w["model"]["default"], "alt": r.uniform(1, 900)},
        default_property=r.choice(["barrier", "alt"]), probability_property=r.choice(["barrier", "alt"]),
        site_species={i: {s: lab for s, lab in enumerate(a)} for i, a in enumerate(b.ref.allowed)})
    return _Bound(m, b, w)


class _Bound:
    """A model with the world in which its rates are compared."""

    def __init__(self, model, b, w):
        self.model, self.b, self.w = model, b, w


def mk_lce(r):
    spec = lce.gen_spec(r)
    return _Lce(lce.build(spec), spec)


class _Lce:
    def __init__(self, m, spec):
        self.model, self.spec = m, spec


def _lce_params(r, m):
    p = {"keci": [round(r.uniform(-90, 90), r.choice([3, 15])) for _ in range(lce.n_features(m))],
         "empty_cluster": r.uniform(-300, 300)}
    if r.random() < 0.5:
        p["orbit_fingerprints"] = m.get_orbit_fingerprints()
        p["local_environment_hash"] = m.local_environment_hash
    return p


def mk_composite(r):
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    spec = lce.gen_spec(r)
    kra = lce.build(spec)
    kra.set_parameters(_lce_params(r, kra))
    kind = r.choice(["none", "lce", "site"])
    site = None
    if kind == "lce":
        site = lce.build(spec)
        site.set_parameters(_lce_params(r, site))
    elif kind == "site":
        site = mk_site(r, n=lce.n_local(spec) + 2)
    meta = [None if r.random() < 0.4 else {"time_stamp": r.random() * 1e9, "time": "01/02/2020, 03:04:05",
                                           "rmse": r.random()} for _ in range(2)]
    if site is None:
        meta[1] = None
    m = CompositeLCEModel(site_model=site, kra_model=kra, kra_fit_metadata=meta[0], site_fit_metadata=meta[1])
    return _Lce(m, spec)


def mk_site(r, n=None):
    from kmcpy.models.site_energy import SiteEnergyModel
    n = n or r.randint(2, 8)
    kw = {"compute_ref": "dst.refs:site_energy", "compute_kwargs": {"scale": round(r.uniform(-2, 2), 3)},
          "units": r.choice(["eV", "meV"])}
    if r.random() < 0.4:
        kw.update(apply_ref="dst.refs.on_apply", apply_kwargs={"tag": "x", "n": [1, 2]},
                  runtime_ref="dst.refs:engine", runtime_kwargs={"level": r.randint(1, 9)})
    size = n + r.randint(0, 3)
    if r.random() < 0.7:
        ext = list(range(size))
        r.shuffle(ext)
        kw["site_mapping"] = ext[:n] if r.random() < 0.5 else dict(enumerate(ext[:n]))
    style = r.choice(["none", "int", "float", "str", "by_site"])
    if style == "int":
        kw["state_mapping"] = dict(zip((0, 1, 2), r.sample([5, 7, 11, -3], 3)))
    elif style == "float":
        kw["state_mapping"] = [r.uniform(-2, 2) for _ in range(3)]
    elif style == "str":
        kw.update(state_mapping=["a", "b", "c"], external_fill_value="z", external_dtype="object")
    elif style == "by_site":
        kw["state_mapping_by_site"] = {i: {s: r.randint(-9, 9) + (0.5 if r.random() < 0.3 else 0)
                                           for s in range(3)} for i in range(n)}
        kw["external_dtype"] = "float"
    if r.random() < 0.3:
        kw["external_size"] = size
    elif r.random() < 0.4 and style != "str":
        kw["initial_occupation"] = [r.choice([0.5, 2.5])] * size
    if r.random() < 0.3:
        kw["active_site_order_hash"] = "%064x" % r.randrange(16 ** 64)
    if r.random() < 0.3:
        kw["name"] = "évaluateur"
    m = SiteEnergyModel(**kw)
    m._n = n
    return m


def _params(r):
    from kmcpy.models.parameters import LCEModelParameters
    n = r.randint(1, 6)
    fp = r.random() < 0.5
    return LCEModelParameters(
        keci=[r.uniform(-1, 1) * 10 ** r.randint(-12, 4) for _ in range(n)], empty_cluster=r.uniform(-500, 500),
        cluster_site_indices=[] if r.random() < 0.5 else [[r.randrange(9) for _ in range(2)] for _ in range(3)],
        weight=[float(r.randint(1, 3)) for _ in range(n)], alpha=r.choice([0.0, 1e-5, 1.5]),
        time_stamp=r.uniform(0, 2e9), time="11/18/2026, 06:00:%02d" % r.randrange(60), rmse=r.random(),
        loocv=r.random(), normalize=r.random() < 0.5,
        orbit_fingerprints=["%08x" % r.randrange(2 ** 32) for _ in range(n)] if fp else None,
        local_environment_hash="%016x" % r.randrange(2 ** 64) if fp else None)


def mk_history(r):
    from kmcpy.models.parameters import LCEModelParamHistory
    return LCEModelParamHistory(history=[_params(r) for _ in range(r.choice([0, 1, 2, 3, 12]))])


def mk_fitter(r):
    from kmcpy.models.fitting.fitter import LCEFitter
    f = LCEFitter()
    f.model_parameters = _params(r)
    f.model_parameters.cluster_site_indices = []
    return f


def mk_config(r):
    from kmcpy.simulator.config import Configuration
    kw = dict(
        temperature=r.choice([300.0, 298.15, r.uniform(1, 2000)]), attempt_frequency=r.choice([1e13, 5e12, 1.25e10]),
        equilibration_passes=r.randrange(2000), kmc_passes=1 + r.randrange(10 ** 6),
        random_seed=r.choice([None, 0, r.randrange(2 ** 32)]),
        name=r.choice(["sim", "run 1", "yes", "1e3", "ñ", "a: b"]),
        supercell_shape=(r.randint(1, 4), 2, 1), dimension=r.choice([1, 2, 3]),
        mobile_ion_specie=r.choice(["Na", "Li", "No"]), mobile_ion_charge=r.choice([1.0, -1.0, 1]),
        elementary_hop_distance=r.uniform(1, 4), model_type=r.choice(["composite_lce", "local_barrier"]),
        structure_file="s.cif", model_file=r.choice(["m.json", ""]), event_file="dir/e.json",
        site_mapping=r.choice([None, {"Na": ["Na", "X"], "O": "O"}, {"No": ["No", "Y"], "Si": ["Si", "P"]}]),
        convert_to_primitive_cell=r.random() < 0.5)
    if r.random() < 0.5:
        kw["initial_occupations"] = [r.choice([0, 1, 2, -1]) for _ in range(r.randint(1, 30))]
    else:
        kw["initial_state_file"] = "state.json"
    if r.random() < 0.5:
        kw.update(property_sampling_interval=r.randint(1, 9), property_sampling_time_interval=r.choice([None, 1e-9]),
                  builtin_property_enabled={"msd": r.random() < 0.5})
    if r.random() < 0.5:
        kw["property_callbacks"] = [{"callable": "dst.refs:observe", "name": "o", "interval": 2, "store": True,
                                     "max_records": 5}]
    return Configuration(**kw)


MAKE = {"events": mk_events, "event": mk_event, "barrier": mk_barrier, "lce": mk_lce, "composite": mk_composite,
        "site": mk_site, "params": _params, "history": mk_history, "fitter": mk_fitter, "config": mk_config,
        "flow": mk_config}


def real(obj):
    return obj.model if isinstance(obj, (_Bound, _Lce)) else obj


# -- what an artifact is worth to its user -------------------------------------------
def view(kind, obj, like=None):
    """Canonical text of everything a user can tell artifacts apart by.
    like: the original (for the world in which a loaded model is probed)."""
    like = like if like is not None else obj
    o = real(obj)
    if kind == "events":
        o = copy.copy(o)  # dependencies may be computed on demand
        return canon({"events": [[_ints(e.mobile_ion_indices), _ints(e.local_env_indices)] for e in o.events],
                      "deps": [sorted(_ints(o.get_dependent_events(i))) for i in range(len(o.events))],
                      "sites": sorted([int(s), sorted(_ints(v))] for s, v in o.site_to_events.items() if len(v)),
                      "meta": _plain(o.index_metadata)})
    if kind == "event":
        return canon([_ints(o.mobile_ion_indices), _ints(o.local_env_indices)])
    if kind == "barrier":
        return canon([_plain(o.as_dict()), barrier_rates(o, like)])
    if kind == "lce":
        # fitted parameters are saved separately; the expansion is probed with fixed ones
        if not fits(o, like.spec, like.model):
            return "another local environment"
        o = copy.copy(o)
        o.set_parameters({"keci": [math.sin(1.0 + i) for i in range(lce.n_features(o))], "empty_cluster": 0.25})
        return canon([lce.probe(o, like.spec, 8), list(o.get_orbit_fingerprints()), o.local_environment_hash,
                      _plain(like.spec["basis"]) == o.basis.name if hasattr(o.basis, "name") else None])
    if kind == "composite":
        if not all(fits(x, like.spec, like.model.kra_model) for x in (o.kra_model, o.site_model) if hasattr(x, "cluster_site_indices")):
            return "another local environment"
        return canon([composite_rates(o, like.spec), _plain(o.kra_fit_metadata), _plain(o.site_fit_metadata),
                      _plain(o.as_dict().get("site", {}).get("model"))])
    if kind == "site":
        return canon([site_values(o, like._n), _plain(o.as_dict()), [_plain(getattr(o, k)) for k in SITE_FIELDS]])
    if kind == "params":
        return canon(params_fields(o))
    if kind == "history":
        return canon([params_fields(p) for p in o.history])
    if kind == "fitter":
        return canon(params_fields(o.model_parameters))
    if kind in ("config", "flow"):
        return canon({k: _plain(getattr(o, k)) for k in CONFIG_FIELDS})
    raise HarnessError(kind)


def fits(o, spec, orig):
    """May the expansion be evaluated in this world?  (The kernels do not check bounds.)"""
    n = lce.n_local(spec)
    if o.local_environment_hash != orig.local_environment_hash or lce.n_features(o) != lce.n_features(orig):
        return False
    return all(0 <= int(i) < n for f in o.cluster_site_indices for c in f for i in c)


def _ints(x):
    return [int(v) for v in x]


def _plain(v):
    """JSON-like value where containers lose their Python type."""
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return _plain(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    return v


PARAM_FIELDS = ["keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse",
                "loocv", "normalize", "orbit_fingerprints", "local_environment_hash"]


CONFIG_FIELDS = [
    "structure_file", "supercell_shape", "dimension", "mobile_ion_specie", "mobile_ion_charge",
    "elementary_hop_distance", "model_type", "model_file", "event_file", "site_mapping",
    "convert_to_primitive_cell", "initial_state_file", "initial_occupations", "temperature", "attempt_frequency",
    "equilibration_passes", "kmc_passes", "random_seed", "name", "property_sampling_interval",
    "property_sampling_time_interval", "builtin_property_enabled", "property_callbacks"]
SITE_FIELDS = ["name", "compute_ref", "compute_kwargs", "apply_ref", "apply_kwargs", "runtime_ref", "runtime_kwargs",
               "units", "active_site_order_hash", "external_site_order_hash"]


def params_fields(p):
    return {k: _plain(getattr(p, k)) for k in PARAM_FIELDS}


def barrier_rates(m, like):
    """Rates of the loaded rules in a few configurations, judged by the reference."""
    from kmcpy.simulator.state import State
    from kmcpy.simulator.config import RuntimeConfig
    b, w = like.b, like.w
    r = random.Random(7)
    rc = RuntimeConfig(temperature=500.0, attempt_frequency=1e12)
    out = []
    occ = list(w["occ"])
    for _ in range(3):
        st = State(occupations=list(occ))
        for e in b.lib.events:
            out.append(float(m.compute(simulation_state=st, event=e)).hex())
            out.append(float(m.compute_probability(event=e, runtime_config=rc, simulation_state=st)).hex())
        for i in range(len(occ)):
            if r.random() < 0.4:
                occ[i] = r.randrange(len(b.ref.allowed[i]))
    return out


def composite_rates(m, spec):
    from kmcpy.event import Event
    from kmcpy.simulator.config import RuntimeConfig
    from kmcpy.simulator.state import State
    n = lce.n_local(spec)
    rc = RuntimeConfig(temperature=400.0, attempt_frequency=1e13)
    out = []
    site = m.site_model
    for k in range(6):
        occ = [(k >> j) & 1 for j in range(n)] + [0, 1] if k % 2 else [(k >> j) & 1 for j in range(n)] + [1, 0]
        if spec["basis"] == "occupation":
            occ = [1 if o else -1 for o in occ]
        if site is not None and hasattr(site, "initialize_state") and spec["basis"] == "occupation":
            break  # state values -1/1 have no external mapping
        st = State(occupations=occ)
        if hasattr(m, "initialize_state"):
            m.initialize_state(simulation_state=st)
        ev = Event(mobile_ion_indices=(n, n + 1), local_env_indices=tuple(range(n)))
        out.append(float(m.compute_probability(event=ev, runtime_config=rc, simulation_state=st)).hex())
        out.append(float(m.kra_model.compute(simulation_state=st, event=ev)).hex())
    return out


def site_values(m, n):
    from kmcpy.event import Event
    from kmcpy.simulator.state import State
    out = []
    keep = m.active_site_order_hash, m.active_site_order
    for k in range(4):
        occ = [(k + j) % 3 for j in range(n)]
        st = State(occupations=occ)
        m.initialize_state(simulation_state=st)
        out.append([_plain(x) for x in m.external_occupation.tolist()])
        for a in range(n):
            ev = Event(mobile_ion_indices=(a, (a + 1) % n), local_env_indices=())
            out.append(float(m.compute(event=ev, simulation_state=st)).hex())
    m.external_occupation = None
    if (m.active_site_order_hash, m.active_site_order) != keep:
        raise Violation("probe-changed-model", "using a site-energy model changed its site-order identity")
    return out


def save(kind, obj, path, act):
    if kind == "flow":
        obj.to(path, include_loader_paths=True, section=act["section"], task_type="t%d" % (act["spec"] % 3))
    elif kind == "config":
        obj.to(path, include_loader_paths=True)
    else:
        real(obj).to(path)


def load(kind, path):
    from kmcpy.event import Event, EventLib
    from kmcpy.models import LocalClusterExpansion
    from kmcpy.models.base import BaseModel
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.fitting.fitter import LCEFitter
    from kmcpy.models.local_barrier_model import LocalBarrierModel
    from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters
    from kmcpy.models.site_energy import SiteEnergyModel
    from kmcpy.simulator.config import Configuration
    if kind in ("barrier", "composite") and os.path.basename(os.path.dirname(path)) == "sub":
        return BaseModel.from_config(Configuration(model_file=path, temperature=300.0))
    return {"events": EventLib, "event": Event, "barrier": LocalBarrierModel, "lce": LocalClusterExpansion,
            "composite": CompositeLCEModel, "site": SiteEnergyModel, "params": LCEModelParameters,
            "history": LCEModelParamHistory, "fitter": LCEFitter, "config": Configuration}[kind].from_file(path)


def flow_view(path):
    """A workflow file as any YAML reader sees it."""
    from ruamel.yaml import YAML
    with open(path) as f:
        text = f.read()
    try:
        data = YAML(typ="safe").load(text)
    except Exception:
        return "raw:" + text
    return canon(_plain(data))


FLOWS = {
    "other": "# my workflow\ngenerate:\n  type: default\n  default:\n    cutoff: 4.5\n    label: keep me\nnotes: [1, 2]\n",
    "damaged": "generate:\n  type: default\n  default: {cutoff: 4.5\nkmc: [",
    "lists": "- a\n- b\n",
}


def look(kind, path, like):
    """View of what is on disk now: text, None (no file), or ('error', text)."""
    if not os.path.exists(path):
        return None
    if kind == "flow":
        return flow_view(path)
    try:
        got = load(kind, path)
        return view(kind, got, like)   # a model probed in another version's world may refuse
    except Violation:
        raise
    except Exception as e:
        return ("error", f"{type(e).__name__}: {str(e)[:160]}")


def run(sc, ctx):
    from ..fakeh5 import installed
    with installed():
        if "world" in sc:
            _results(sc, ctx)
        else:
            _run(sc, ctx)


def _run(sc, ctx):
    root = os.path.join(ctx.scratch, "p")
    os.makedirs(os.path.join(root, "sub"))
    with open(os.path.join(root, "sub", "keep"), "w"):
        pass
    if "link.json" in sc["files"]:
        os.symlink("target.json", os.path.join(root, "link.json"))
    files = sc["files"]
    allowed = {n: [None] for n in files}     # each entry: None, ("made", spec) or ("flow", canonical text)
    if sc.get("flow"):
        with open(os.path.join(root, "flow.yaml"), "w") as f:
            f.write(FLOWS[sc["flow"]])
        allowed["flow.yaml"] = [("flow", flow_view(os.path.join(root, "flow.yaml")))]
    for act in (a for rd in sc["rounds"] for a in rd["acts"]):
        made(files[act["file"]], sc["salt"], act["spec"])     # outside the simulated processes
    for k, rd in enumerate(sc["rounds"]):
        before = disk.snapshot(root)
        now = {n: allowed[n][0] for n in files}
        msgs, code, log = disk.spawn(lambda rep: life(rep, sc, rd, root, now), root, rd["fault"])
        fault = rd["fault"]
        died = disk.crashed(fault, code)
        if died and fault["kind"].startswith("power"):
            disk.power_loss(root, before, log, random.Random(fault["salt"]))
        fired, open_save = died, None
        for m in msgs:
            if m[0] == "begin":
                n, j = m[1], m[2]
                act = rd["acts"][j]
                nxt = after_save(sc, files[n], act, allowed[n][0], ctx)
                open_save = n
                allowed[n] = allowed[n][:1] + ([nxt] if nxt else [])
            elif m[0] == "done":
                n = m[1]
                if len(allowed[n]) < 2:
                    raise Violation("save-accepted", f"{n}: saving a section into a file that holds no sections returned normally")
                allowed[n] = [allowed[n][-1]]
                open_save = None
            elif m[0] == "failed":
                ctx.probe("save-reported-" + m[2])
                open_save = None
            elif m[0] == "loaded":
                ctx.probe("load-" + m[2])
            elif m[0] == "ops" and m[3]:
                fired = True
        if fired:
            ctx.fault(fault["kind"])
            ctx.nontrivial = True
        ctx.log("round", k, [m[:3] for m in msgs if m[0] in ("begin", "done", "failed", "loaded")], code)
        for n, kind in sorted(files.items()):
            which = check_file(sc, n, kind, root, allowed, fault, k)
            if fired and open_save == n:
                ctx.state(kind, fault["n"], fault["kind"], which)
                ctx.probe("in-flight-survived-" + which)
        ctx.steps += len(rd["acts"])
    if sc["cut"] is not None:
        truncated(sc, root, allowed, ctx)


def after_save(sc, kind, act, cur, ctx):
    if kind != "flow":
        return ("made", act["spec"])
    base = {}
    if cur is not None:
        if cur[1].startswith("raw:"):
            return None
        base = json.loads(cur[1])
        if not isinstance(base, dict):
            return None
    t = "t%d" % (act["spec"] % 3)
    cfg = json.loads(made("flow", sc["salt"], act["spec"])[1])
    cfg.update({"@module": "kmcpy.simulator.config", "@class": "Configuration"})
    base[act["section"]] = {"type": t, t: cfg}
    return ("flow", canon(base))


def describe(sc, kind, v):
    if v is None:
        return "no file"
    return f"version {v[1]}" if v[0] == "made" else f"sections {v[1][:200]}"


def check_file(sc, n, kind, root, allowed, fault, k):
    path = os.path.join(root, n)
    ok = allowed[n]
    got = None
    if not os.path.exists(path):
        hit = None if None in ok else "lost"
    elif kind == "flow":
        got = flow_view(path)
        match = [v for v in ok if v is not None and v[1] == got]
        hit = match[-1] if match else "bad"
    else:
        hit = "bad"
        for v in reversed(ok):
            if v is None:
                continue
            obj, want = made(kind, sc["salt"], v[1])
            got = look(kind, path, obj)
            if got == want:
                hit = v
                break
        if got is None:
            got = look(kind, path, made(kind, sc["salt"], 0)[0]) if not any(ok) else got
    if isinstance(hit, str):
        if got is not None and any(ok):  # describe it against the newest acceptable version
            got = look(kind, path, made(kind, sc["salt"], [v for v in ok if v][-1][1])[0]) if kind != "flow" else got
        what = "no file" if hit == "lost" else (got[1] if isinstance(got, tuple) else diff(sc, kind, ok, got))
        raise Violation("artifact-lost" if hit == "lost" else
                        ("artifact-damaged" if isinstance(got, tuple) else "wrong-content"),
                        f"{kind} in {n} after {fault and fault['kind']} in round {k}: {what}; acceptable: "
                        f"{[describe(sc, kind, v) for v in ok]}")
    which = "none" if hit is None else ("new" if hit == ok[-1] else "old")
    allowed[n] = [hit]
    return which


def diff(sc, kind, ok, got):
    if kind == "flow":
        return f"the file holds {got[:300]}"
    for v in reversed(ok):
        if v is not None:
            want = made(kind, sc["salt"], v[1])[1]
            i = next((i for i, (x, y) in enumerate(zip(want, str(got))) if x != y), min(len(want), len(str(got))))
            return f"loads as something else: ...{str(got)[max(0, i - 60):i + 60]}... instead of ...{want[max(0, i - 60):i + 60]}..."
    return "loads although nothing was saved"


def life(report, sc, rd, root, now):
    """One process: saves and loads, one fault somewhere."""
    os.chdir(root)
    for j, act in enumerate(rd["acts"]):
        n = act["file"]
        kind = sc["files"][n]
        path = n if j % 2 else os.path.join(root, n)
        if act["do"] == "load":
            if kind == "flow" or now.get(n) is None:
                continue
            obj, want = made(kind, sc["salt"], now[n][1])
            try:
                got = load(kind, path)
            except (OSError, KeyboardInterrupt) as e:
                report("loaded", n, type(e).__name__)
                continue
            except Exception as e:
                if rd["fault"] and rd["fault"]["kind"] in ("readerr", "interrupt"):
                    report("loaded", n, type(e).__name__)   # wrapped by a parser
                    continue
                raise Violation("load-refused", f"loading the intact {n} failed: {type(e).__name__}: {str(e)[:200]}")
            if view(kind, got, obj) != want:
                raise Violation("wrong-load", f"loading {n} under {rd['fault'] and rd['fault']['kind']} returned other content")
            report("loaded", n, "ok")
            continue
        obj, _ = made(kind, sc["salt"], act["spec"])
        report("begin", n, j)
        try:
            save(kind, obj, path, act)
        except (OSError, KeyboardInterrupt) as e:
            report("failed", n, type(e).__name__)
            if not rd["tolerate"]:
                return
            continue
        except Exception as e:
            refuses = kind == "flow" and sc.get("flow") in ("damaged", "lists")
            if not refuses and not (kind == "flow" and rd["fault"] and rd["fault"]["kind"].startswith(("read", "int"))):
                raise
            report("failed", n, type(e).__name__)
            continue
        now[n] = ("made", act["spec"])
        report("done", n, j)


def truncated(sc, root, allowed, ctx):
    """A JSON file cut short by somebody else is refused."""
    for n, kind in sorted(sc["files"].items()):
        path = os.path.join(root, n)
        if not n.endswith(".json") or allowed[n][0] is None:
            continue
        data = open(path, "rb").read().rstrip()
        keep = int(sc["cut"] * len(data))
        with open(path, "wb") as f:
            f.write(data[:keep])
        ctx.fault("truncated-file")
        try:
            load(kind, path)
        except Exception:
            ctx.probe("truncation-reported")
            continue
        raise Violation("truncated-accepted", f"{kind} in {n}: the first {keep} of {len(data)} bytes load without an error")


# -- result files ---------------------------------------------------------------------
def gen_results(r):
    w = W.gen_world(r, max_sites=10, model="table", passes=(1, 3))
    cbs = [{"kind": r.choice(VALUES), "interval": r.randint(1, 5), "max": r.choice([None, None, 2])}
           for _ in range(r.choice([0, 1, 1, 2]))]
    return {"world": w, "callbacks": cbs, "label": r.choice([None, "lab", "a_b"]), "twice": r.random() < 0.3,
            "fault": disk.gen_fault(r, r.choice([20, 45]), ["err", "err", "errfrom", "short", "short", "interrupt"])
            if r.random() < 0.9 else None}


VALUES = ["int", "float", "npfloat", "str", "none", "list", "dict", "array", "nan", "bool", "nested"]


def value(kind, st, step, time):
    n = int(sum(int(o) for o in st.occupations))
    return {"int": step + n, "float": time, "npfloat": np.float64(time), "str": f"step {step} é", "none": None,
            "list": [step, time, "x"], "dict": {"a": step, 3: time}, "array": np.array([[step, n], [1, 2]]),
            "nan": float("nan"), "bool": n % 2 == 0,
            "nested": {"r": [{"v": np.int64(n)}, (1, 2.5)], "s": None}}[kind]


def _results(sc, ctx):
    w = sc["world"]
    root = os.path.join(ctx.scratch, "out")
    os.makedirs(root)
    b = W.build(w)
    msgs, code, log = disk.spawn(lambda rep: results_life(rep, sc, b, root), root, sc["fault"])
    disk.crashed(sc["fault"], code)
    for m in msgs:
        if m[0] == "ops" and m[3]:
            ctx.fault(sc["fault"]["kind"] + "-results")
            ctx.nontrivial = True
        if m[0] == "raised":
            ctx.probe("run-reported-" + m[1])
        if m[0] == "returned":
            check_results(root, m[1], ctx)
            ctx.steps += m[1]["steps"]
            ctx.sim_time += m[1]["time"]
    ctx.log("results", [m[:2] if m[0] == "raised" else m[0] for m in msgs], code)


def results_life(report, sc, b, root):
    os.chdir(root)
    kmc = b.kmc()
    seen = [0]

    for i, c in enumerate(sc["callbacks"]):
        kmc.attach(lambda st, step, time, _k=c["kind"]: value(_k, st, step, time), interval=c["interval"],
                   name=f"cb{i}", store=True, **({"max_records": c["max"]} if c["max"] else {}))

    def count(st, step, time):
        seen[0] += 1

    kmc.attach(count, interval=1, name="count", store=False)
    for k in range(2 if sc["twice"] else 1):
        label = sc["label"] if k == 0 else "second"
        try:
            tr = kmc.run(label=label)
        except (OSError, KeyboardInterrupt) as e:
            report("raised", type(e).__name__)
            continue
        except ZeroDivisionError:
            return
        report("returned", {
            "label": label or "sim", "pass": tr.current_pass, "disp": np.asarray(tr.displacement).tolist(),
            "hops": _ints(tr.hop_counter), "occ": _ints(kmc.simulation_state.occupations),
            "results": {k2: [float(x) for x in v] for k2, v in tr.results.items()},
            "units": dict(tr.result_units), "records": _plain_records(tr), "steps": seen[0],
            "time": float(kmc.simulation_state.time)})


def _plain_records(tr):
    out = {}
    for name, recs in tr.get_property_records().items():
        out[name] = [[int(x["step"]), float(x["time"]), _jsonlike(x["value"])] for x in recs]
    return out


def _jsonlike(v):
    v = _plain(v)
    return json.loads(json.dumps(v)) if not isinstance(v, float) or v == v else "nan"


def _arr(path):
    with gzip.open(path, "rt") as f:
        return [[float(x) for x in line.strip().split(",")] for line in f if line.strip()]


def check_results(root, m, ctx):
    lab, p = m["label"], m["pass"]

    def need(name):
        path = os.path.join(root, name)
        if not os.path.exists(path):
            raise Violation("result-missing", f"the run returned normally but {name} does not exist")
        return path

    try:
        disp = _arr(need(f"displacement_{lab}_{p}.csv.gz"))
        hops = _arr(need(f"hop_counter_{lab}_{p}.csv.gz"))
        occ = _arr(need(f"current_occ_{lab}_{p}.csv.gz"))
        with gzip.open(need(f"results_{lab}.csv.gz"), "rt") as f:
            rows = list(csv.reader(f))
        with gzip.open(need(f"results_units_{lab}.json.gz"), "rt") as f:
            units = json.load(f)
        recs = []
        if any(m["records"].values()):
            with gzip.open(need(f"properties_{lab}.json.gz"), "rt", encoding="utf-8") as f:
                recs = json.load(f)
    except (OSError, EOFError, ValueError) as e:
        raise Violation("result-damaged", f"the run returned normally but a result file is unreadable: {type(e).__name__}: {e}")
    if [[x] for x in m["hops"]] != [[int(y) for y in x] for x in hops]:
        raise Violation("result-wrong", f"hop counters on disk {hops}, in memory {m['hops']}")
    if [[x] for x in m["occ"]] != [[int(y) for y in x] for x in occ]:
        raise Violation("result-wrong", f"occupations on disk {occ}, in memory {m['occ']}")
    if len(disp) != len(m["disp"]) or any(not same(x, y, 1e-12, 1e-12) for a, b in zip(disp, m["disp"]) for x, y in zip(a, b)):
        raise Violation("result-wrong", f"displacements on disk {disp}, in memory {m['disp']}")
    head, rows = rows[0], rows[1:]
    if sorted(head) != sorted(m["results"]):
        raise Violation("result-wrong", f"columns on disk {head}, in memory {sorted(m['results'])}")
    for j, col in enumerate(head):
        mem = m["results"][col]
        if len(rows) != len(mem):
            raise Violation("result-wrong", f"{len(rows)} result rows on disk, {len(mem)} in memory")
        for row, y in zip(rows, mem):
            x = float("nan") if row[j] == "" else float(row[j])
            if not same(x, y, 1e-12):
                raise Violation("result-wrong", f"{col} on disk {row[j]}, in memory {y!r}")
    if units != m["units"]:
        raise Violation("result-wrong", f"units on disk {units}, in memory {m['units']}")
    got = {}
    for x in recs:
        v = x["value"]
        got.setdefault(x["name"], []).append([x["step"], x["time"], "nan" if isinstance(v, float) and v != v else v])
    want = {k: v for k, v in m["records"].items() if v}
    if got != want:
        raise Violation("result-wrong", f"property records on disk differ from the {sum(map(len, want.values()))} in memory: "
                        f"{str(got)[:200]} / {str(want)[:200]}")
    ctx.probe("results-complete")


def shrink(sc):
    if "world" in sc:
        if sc["twice"]:
            yield dict(copy.deepcopy(sc), twice=False)
        yield from shrink_with_world(sc, "callbacks")
        return
    for n in sorted(sc["files"]):
        if len(sc["files"]) > 1:
            c = copy.deepcopy(sc)
            del c["files"][n]
            for rd in c["rounds"]:
                rd["acts"] = [a for a in rd["acts"] if a["file"] != n]
            c["rounds"] = [rd for rd in c["rounds"] if rd["acts"]]
            yield c
    for i, rd in enumerate(sc["rounds"]):
        c = copy.deepcopy(sc)
        del c["rounds"][i]
        yield c
        for j in range(len(rd["acts"])):
            if len(rd["acts"]) > 1:
                c = copy.deepcopy(sc)
                del c["rounds"][i]["acts"][j]
                yield c
        if rd["fault"] is not None:
            c = copy.deepcopy(sc)
            c["rounds"][i]["fault"] = None
            yield c
            for v in sorted({1, rd["fault"]["n"] // 2, rd["fault"]["n"] - 1}):
                if 1 <= v < rd["fault"]["n"]:
                    c = copy.deepcopy(sc)
                    c["rounds"][i]["fault"]["n"] = v
                    yield c
    if sc["cut"] is not None:
        yield dict(copy.deepcopy(sc), cut=None)
