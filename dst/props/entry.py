"""entry points: one configured simulation, however it is started, or an error."""
from __future__ import annotations

import contextlib
import copy
import csv
import gzip
import io
import json
import math
import os
import random
import sys

import numpy as np

from ..core import SkipRun, Violation, canon
from .. import disk
from .. import project as P
from .. import world as W
from ..ref import Draws, Follower, pick
from .common import same, shrink_world

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("distinct event-log digests of runs in which a simulation was completed and, besides, another start, a "
        "refusal or a fault took place")
REAL = ["kmcpy.cli.run_kmc (argument parsing and main)", "kmcpy.api.run", "kmcpy.simulator.config.Configuration",
        "KMC.from_config, KMC.run and the result writers", "EventLib, LocalBarrierModel, State files"]
STUB = ["disk below libc (LD_PRELOAD shim)", "the shell: argument lists are handed over directly"]
ASSUMPTIONS = ["the project files belong together (mixtures are C11)", "every run has a seed"]
STATE_MEASURE = "distinct (way of starting, file style, parameters that differ from the default, outcome) tuples"

FIELDS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"]
SYSTEM = {"dimension", "mobile_ion_charge", "elementary_hop_distance", "supercell_shape", "mobile_ion_specie",
          "structure_file", "model_file", "event_file", "site_mapping", "initial_state_file", "initial_occupations",
          "model_type", "convert_to_primitive_cell"}
BAD = [("temprature", 400.0), ("v", 1e13), ("q", 1.0), ("T", 300), ("random_sed", 3), ("temperature", 0), ("temperature", -20.0),
       ("kmc_passes", 0), ("equilibration_passes", -1), ("dimension", 4), ("attempt_frequency", 0.0),
       ("property_sampling_interval", 0), ("builtin_property_enabled", {"masd": True}), ("supercell_shape", [1, 1]),
       ("structure_file", "nowhere.cif"), ("model_file", "nowhere.json"), ("event_file", "nowhere.json"),
       ("property_callbacks", [{"callable": "dst.refs:nothing_there"}])]
FILES = ["in.json", "in.yaml", "two.yml", "two.json", "sub/in.yaml", "sub/in.json"]


# -- scenario -----------------------------------------------------------------------
def gen_params(r, w):
    p = {"temperature": r.choice([w["cfg"]["temperature"], 300.0, 300, round(r.uniform(200, 900), 1)]),
         "kmc_passes": r.randint(1, 3), "equilibration_passes": r.choice([0, 0, 1, 2]),
         "random_seed": r.choice([0, 1, r.randrange(2 ** 31)]),
         "name": r.choice(["sim", "a", "my_run", "T300_x"]),
         "start": r.choice(["list", "file", "file", "state"])}
    for k in ("attempt_frequency", "dimension", "mobile_ion_charge", "elementary_hop_distance"):
        p[k] = w["cfg"][k]
    if r.random() < 0.3:      # left to the documented default
        del p[r.choice(["attempt_frequency", "dimension", "mobile_ion_charge", "elementary_hop_distance", "temperature"])]
    tau = 1.0 / max(W.RefWorld(w).total_rate(w["occ"]), 1e-30)
    if r.random() < 0.6:
        p["property_sampling_interval"] = r.choice([1, 2, 3])
    if r.random() < 0.25:
        p["property_sampling_time_interval"] = tau * 10 ** r.uniform(-1, 1)
    if r.random() < 0.3:
        p["builtin_property_enabled"] = {f: r.random() < 0.5 for f in r.sample(FIELDS, 2)}
    if r.random() < 0.6:
        c = {"callable": r.choice(["dst.refs:trace", "dst.refs.trace"])}
        if r.random() < 0.6:
            c["interval"] = r.choice([1, 1, 2])
        if r.random() < 0.25:
            c["time_interval"] = tau * 10 ** r.uniform(-1, 1)
        if r.random() < 0.4:
            c["name"] = "probe"
        if r.random() < 0.2:
            c["max_records"] = r.choice([1, 3])
        if r.random() < 0.15:
            c["enabled"] = False
        if r.random() < 0.15:
            c["store"] = False
        p["property_callbacks"] = [c]
    return p


DEFAULTS = {"temperature": 300.0, "attempt_frequency": 1e13, "dimension": 3, "mobile_ion_charge": 1.0,
            "elementary_hop_distance": 1.0, "kmc_passes": 10000, "equilibration_passes": 1000, "random_seed": None}


def gen(r, tier, i):
    for _ in range(300):
        w = W.gen_world(r, max_sites=r.choice([6, 10]), project=True, model="barrier", hetero=0.3,
                        passes=(1, 3), eq=(0, 2))
        if not any("Zr" in s["sp"] for s in w["sites"]):
            break
    sets = [gen_params(r, w) for _ in range(r.choice([1, 2, 3]))]
    for s in sets[1:]:
        if r.random() < 0.5:      # a near-copy: one thing differs
            k = r.choice(sorted(s))
            v = s[k]
            s.clear()
            s.update(copy.deepcopy(sets[0]))
            s[k] = v
    if r.random() < 0.35:
        k, v = r.choice(BAD)
        sets.append(dict(copy.deepcopy(sets[0]), **{k: v}))
        sets[-1]["bad"] = k
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        k = r.randrange(len(sets))
        if r.random() < 0.1:
            ops.append(gen_flags(r, w))
            continue
        if r.random() < 0.7:
            f = ops[-1]["file"] if ops and ops[-1].get("file") and r.random() < 0.4 else r.choice(FILES)
            ops.append({"op": "config", "file": f, "set": k,
                        "writer": r.choice(["hand", "hand", "real"]),
                        "style": r.choice(["flat", "flat", "kmc", "registry", "tasks", "decoy"]),
                        "paths": r.choice(["abs", "rel"]),
                        "fault": disk.gen_fault(r, r.choice([4, 8])) if r.random() < 0.15 else None})
            if r.random() < 0.08:
                ops.append({"op": "damage", "file": f, "how": r.choice(["cut", "empty", "gone"]), "at": r.random()})
            ops.append({"op": "start", "via": r.choice(["cli", "cli", "cli", "file", "section"]), "file": f,
                        "salt": r.randrange(1000), "fault": gen_io(r)})
        else:
            ops.append({"op": "start", "via": r.choice(["api", "label", "direct", "derived", "mixed", "dict"]), "set": k,
                        "other": r.randrange(len(sets)), "salt": r.randrange(1000),
                        "paths": r.choice(["abs", "rel"]), "fault": gen_io(r)})
    return {"world": w, "sets": sets, "ops": ops}


def gen_flags(r, w):
    shape = r.choice([str(list(w["shape"])), str(tuple(w["shape"])), ",".join(map(str, w["shape"]))])
    good = {"supercell_shape": shape, "model_file": "model.json", "structure_file": "structure.cif",
            "event_file": "events.json", "site_mapping": str(P.mapping(w))}
    want = {"supercell_shape": list(w["shape"]), "model_file": "model.json", "structure_file": "structure.cif",
            "event_file": "events.json", "site_mapping": P.mapping(w)}
    for k in r.sample(["attempt_frequency", "temperature", "convert_to_primitive_cell"], r.randint(0, 3)):
        v = {"attempt_frequency": r.choice([1e13, 5e12, 2.5e11]), "temperature": r.choice([250.5, 400, 1000]),
             "convert_to_primitive_cell": True}[k]
        good[k], want[k] = (None if v is True else repr(v)), v
    bad = None
    if r.random() < 0.4:
        bad, v = r.choice([("supercell_shape", "[1, 1]"), ("supercell_shape", "[1, 1, 1, 2]"), ("supercell_shape", "1,x,1"),
                           ("supercell_shape", "{}"), ("temperature", "warm"), ("temperature", "-5"), ("temperature", "0"),
                           ("attempt_frequency", "0"), ("attempt_frequency", "1e"), ("site_mapping", "[1, 2]"),
                           ("site_mapping", "{'Na': "), ("site_mapping", "Na"), ("temprature", "300")])
        good[bad] = v
    names = sorted(good)
    r.shuffle(names)
    return {"op": "flags", "args": [[k, good[k]] for k in names], "want": want, "bad": bad, "eq": r.random() < 0.5}


def gen_io(r):
    x = r.random()
    if x < 0.15:
        return disk.gen_fault(r, r.choice([10, 40, 80]))
    if x < 0.25:
        return disk.gen_fault(r, r.choice([3, 10, 20]), ["readerr", "readshort"])
    return None


# -- the project ---------------------------------------------------------------------
START_FILES = {"file": "initial_state.json", "state": "state.json"}


def fields(w, p, d, paths):
    """The configuration fields of one parameter set."""
    at = (lambda n: os.path.join(d, n)) if paths == "abs" else (lambda n: n)
    out = {k: copy.deepcopy(v) for k, v in p.items() if k not in ("start", "bad")}
    base = {"structure_file": at("structure.cif"), "model_file": at("model.json"), "event_file": at("events.json"),
            "mobile_ion_specie": w["mobile"], "supercell_shape": list(w["shape"]), "site_mapping": P.mapping(w)}
    if p["start"] == "list":
        base["initial_occupations"] = list(w["occ"])
    else:
        base["initial_state_file"] = at(START_FILES[p["start"]])
    for k, v in base.items():
        out.setdefault(k, v)
    return out


def write_hand(path, data):
    with open(path, "w") as f:
        if path.endswith(".json"):
            json.dump(data, f, indent=1)
        else:
            import yaml
            yaml.safe_dump(data, f, sort_keys=False)


def wrap(style, data, path):
    if style == "kmc":
        return {"fitting": {"alpha": 1.0}, "kmc": data}
    if style == "registry":
        return {"kmc": {"type": "default", "default": data}}
    if style == "decoy":
        return {"kmc": {"default": dict(data, temperature=77.0, kmc_passes=1), "type": "hot", "hot": data}}
    if style == "tasks":
        return {"kmc": {"type": "hot", "cold": dict(data, temperature=77.0, kmc_passes=1), "hot": data},
                "other": {"type": "x", "x": {"temperature": 5.0}}}
    return data


def parse(path):
    try:
        with open(path) as f:
            if path.endswith(".json"):
                return json.load(f)
            import yaml
            return yaml.safe_load(f)
    except (OSError, ValueError):
        return None
    except Exception:       # yaml.YAMLError
        return None


def read_hand(path):
    """Independent reading of an input file: its fields, or None."""
    data = parse(path)
    if not isinstance(data, dict):
        return None
    if "kmc" in data:
        data = data["kmc"]
        if isinstance(data, dict) and "type" in data:
            data = data.get(data["type"])
    if not isinstance(data, dict):
        return None
    return {k: v for k, v in data.items() if not k.startswith("@")}


def norm(f, d):
    """Fields in one canonical form (defaults filled in)."""
    out = dict(DEFAULTS)
    out.update({"property_sampling_interval": None, "property_sampling_time_interval": None,
                "builtin_property_enabled": {}, "property_callbacks": [], "model_type": "composite_lce",
                "convert_to_primitive_cell": False, "initial_state_file": None, "initial_occupations": None,
                "name": "DefaultSimulation"})
    out.update(f)
    for k in ("structure_file", "model_file", "event_file", "initial_state_file"):
        if isinstance(out.get(k), str):
            out[k] = os.path.normpath(os.path.join(d, out[k]))
    for k, v in out.items():
        if isinstance(v, bool) or v is None:
            continue
        if isinstance(v, (int, float)):
            out[k] = float(v)
        elif isinstance(v, tuple):
            out[k] = list(v)
    return canon(out)


# -- reference -----------------------------------------------------------------------
def expected(w, p, order, cache):
    """The run the parameters describe: rows, records, final arrays.  None if it gets stuck."""
    key = canon({k: v for k, v in p.items() if k != "name"})
    if key in cache:
        return cache[key]
    cfg = {k: p.get(k, v) for k, v in DEFAULTS.items()}
    ref = W.RefWorld(dict(w, cfg=cfg))
    ref.attach_coords(order.active_structure().frac_coords)
    draws = Draws(int(cfg["random_seed"]))
    occ = [int(o) for o in w["occ"]]
    n = ref.pass_length

    def hop(occ):
        u1, u2 = draws.pair()
        rates = ref.rates(occ)
        k, amb = pick(rates, u1)
        if k is None:
            return None, 0.0
        if amb:
            raise SkipRun("selection boundary")
        return ref.apply(occ, ref.events[k])[0], -math.log(u2) / math.fsum(rates)

    for _ in range(cfg["equilibration_passes"] * n):
        occ, _ = hop(occ)
        if occ is None:
            cache[key] = None
            return None
    fo = Follower(ref, occ, 0.0, 0)
    # step counter of a run that equilibrated first
    base = cfg["equilibration_passes"] * n
    fo.step_no = base
    rows, time = [], 0.0
    for s in range(1, cfg["kmc_passes"] * n + 1):
        occ, dt = hop(occ)
        if occ is None:
            cache[key] = None
            return None
        time += dt
        fo.step(occ, time, base + s)
        rows.append((base + s, time, list(occ), fo.metrics()))
    cache[key] = (ref, fo, rows)
    return cache[key]


def due(p, rows, c, n):
    """The steps at which the results (c = {}) or a property (its settings) are sampled."""
    k, t = p.get("property_sampling_interval"), p.get("property_sampling_time_interval")
    if k is None and t is None:
        k = max(n, 1)
    k = k if c.get("interval") is None else c["interval"]
    t = t if c.get("time_interval") is None else c["time_interval"]
    out, last = [], None
    for x in rows:
        hit = k is not None and x[0] % k == 0
        if not hit and t is not None:
            since = x[1] if last is None else x[1] - last
            if abs(since - t) <= 1e-9 * max(x[1], t):
                raise SkipRun("time trigger on its threshold")
            hit = since >= t
        if hit:
            last = x[1]
            out.append(x)
    return out


# -- the run ---------------------------------------------------------------------------
def run(sc, ctx):
    from kmcpy.simulator.state import State
    w = sc["world"]
    d = os.path.join(os.path.realpath(ctx.scratch), "project")
    os.makedirs(os.path.join(d, "sub"))
    with open(os.path.join(d, "structure.cif"), "w") as f:
        f.write(P.cif_text(w))
    order = P.load_order(w, os.path.join(d, "structure.cif"))
    b = W.Built()
    b.ref = W.RefWorld(w)
    P.make_lib(w, order).to(os.path.join(d, "events.json"))
    W.make_model(w, b).to(os.path.join(d, "model.json"))
    with open(os.path.join(d, "initial_state.json"), "w") as f:
        json.dump({"occupation": list(w["occ"])}, f)
    State(occupations=list(w["occ"])).save_checkpoint(os.path.join(d, "state.json"))
    inputs = ["structure.cif", "events.json", "model.json", "initial_state.json", "state.json"]
    whole = {n: open(os.path.join(d, n), "rb").read() for n in inputs}
    cache, done, extra = {}, 0, 0
    for op in sc["ops"]:
        if op["op"] == "config":
            extra += config(sc, op, ctx, d)
        elif op["op"] == "flags":
            extra += flags(op, ctx, d)
        elif op["op"] == "damage":
            extra += damage(op, ctx, d)
        else:
            res = start(sc, op, ctx, d, order, cache)
            done += res == "ran"
            extra += 1
            for n in inputs:
                with open(os.path.join(d, n), "rb") as f:
                    if f.read() != whole[n]:
                        raise Violation("input-changed", f"{op['via']}: running the simulation changed {n}")
    if done and extra > 1:
        ctx.nontrivial = True


def config(sc, op, ctx, d):
    w, p = sc["world"], sc["sets"][op["set"]]
    path = os.path.join(d, op["file"])
    data = fields(w, p, d, op["paths"])
    if op["writer"] == "hand" or "bad" in p:
        write_hand(path, wrap(op["style"], data, path))
        ctx.log("config", op["file"], op["style"], op["set"])
        return 0
    others = {}
    if op["style"] != "flat" and os.path.exists(path):
        old = parse(path)
        if isinstance(old, dict) and "kmc" in old and not path.endswith(".json"):
            others = {k: v for k, v in old.items() if k != "kmc"}      # a workflow file: the rest of it stays
        else:
            os.unlink(path)

    def go(report):
        from kmcpy.simulator.config import Configuration
        os.chdir(d)
        try:
            c = Configuration(**dict(data, supercell_shape=tuple(data["supercell_shape"])))
            if op["style"] != "flat" and not path.endswith(".json"):
                c.to(path, include_loader_paths=True, section="kmc")
            else:
                c.to(path, include_loader_paths=True)
        except Exception as e:
            report("failed", type(e).__name__, str(e)[:200])
            return
        report("saved")
    before = disk.snapshot(d)
    msgs, code, log = disk.spawn(go, d, op["fault"])
    fired = disk.crashed(op["fault"], code) or any(m[0] == "ops" and m[3] for m in msgs)
    if fired:
        ctx.fault(op["fault"]["kind"])
        if disk.crashed(op["fault"], code) and op["fault"]["kind"].startswith("power"):
            disk.power_loss(d, before, log, random.Random(op["fault"]["salt"]))
            os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for m in msgs:
        if m[0] == "failed" and not fired:
            raise Violation("configuration-not-saved", f"{op['file']}: {m[1]}: {m[2]}")
        if m[0] == "saved":
            got = read_hand(path)
            if got is None or norm(got, d) != norm(data, d):
                raise Violation("configuration-changed", f"{op['file']} ({op['style']}): saved {data}, the file says {got}")
            for k, v in others.items():
                if canon(parse(path).get(k)) != canon(v):
                    raise Violation("workflow-file-changed", f"{op['file']}: saving section kmc changed section {k}: {v}")
    ctx.log("config", op["file"], op["style"], op["set"], "real", canon([m[0] for m in msgs]))
    return int(fired)


def flags(op, ctx, d):
    """run_kmc with single arguments: the configuration it starts is the one they spell out."""
    def go(report):
        from kmcpy.cli import run_kmc
        from kmcpy.simulator.config import Configuration
        from kmcpy.simulator.kmc import KMC
        os.chdir(d)

        class Begun(BaseException):
            pass

        def begin(cls, config, *a, **kw):
            raise Begun(config)
        KMC.from_config = classmethod(begin)
        argv = ["run_kmc"]
        for k, v in op["args"]:
            argv += ["--" + k] if v is None else [f"--{k}={v}"] if op["eq"] or v.startswith("-") else ["--" + k, v]
        sys.argv = argv
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                code = run_kmc.main()
        except Begun as e:
            c = e.args[0]
            assert isinstance(c, Configuration)
            report("begun", json.loads(json.dumps(c.as_dict(include_loader_paths=True))))
        except SystemExit as e:
            report("refused", str(e.code), out.getvalue()[-300:])
        except Exception as e:
            report("refused", type(e).__name__, str(e)[:300])
        else:
            report("refused" if code else "nothing", str(code), out.getvalue()[-300:])
    msgs, code, _ = disk.spawn(go, d, None, timeout=60.0)
    m = next((m for m in msgs if m[0] in ("begun", "refused", "nothing")), None)
    what = "run_kmc " + " ".join(f"--{k} {v}" for k, v in op["args"])
    ctx.log("flags", m[0] if m else "died", op["bad"])
    ctx.state("flags", canon([a[0] for a in op["args"]]), m[0] if m else "died")
    if m is None or m[0] == "nothing":
        raise Violation("start-died", f"{what}: exit status {code}, no simulation, no error")
    if op["bad"]:
        if m[0] == "begun":
            raise Violation("wrong-input-accepted", f"{what}: {op['bad']} was accepted")
        ctx.probe("refused")
        return 1
    if m[0] == "refused":
        raise Violation("start-refused", f"{what}: {m[1]}: {m[2]}")
    got = {k: v for k, v in m[1].items() if not k.startswith("@") and k != "mobile_ion_specie"}
    if norm(got, d) != norm(op["want"], d):
        raise Violation("other-simulation", f"{what}: started {got}")
    return 1


def damage(op, ctx, d):
    p = os.path.join(d, op["file"])
    if not os.path.exists(p) or (op["how"] == "cut" and not p.endswith(".json")):
        return 0
    with open(p, "rb") as f:
        b = f.read()
    if op["how"] == "gone":
        os.unlink(p)
    else:
        with open(p, "wb") as f:
            f.write(b[:int(op["at"] * (len(b) - 2))] if op["how"] == "cut" else b"")
    ctx.fault("damage-" + op["how"])
    ctx.log("damage", op["how"])
    return 1


def start(sc, op, ctx, d, order, cache):
    w = sc["world"]
    via = op["via"]
    if via in ("cli", "file", "section"):
        got = read_hand(os.path.join(d, op["file"]))
        which = None
        if got is not None:
            for k, p in enumerate(sc["sets"]):
                if norm(got, d) == norm(fields(w, p, d, "abs"), d):
                    which = k
                    break
        p = sc["sets"][which] if which is not None else None
        if got is not None and p is None:
            return "unknown"
        what = f"{via} with {op['file']}"
    else:
        p = sc["sets"][op["set"]]
        what = via
    label = f"L{op['salt']}" if via == "label" else p["name"] if p else "?"
    good = p is not None and "bad" not in p
    want = expected(w, p, order, cache) if good else None
    for n in os.listdir(d):
        if n.endswith(".gz"):
            os.unlink(os.path.join(d, n))
    before = disk.snapshot(d)

    def go(report):
        os.chdir(d)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                begin(sc, op, p, d)
        except SystemExit as e:
            report("exit", e.code, out.getvalue())
        except (Exception, KeyboardInterrupt) as e:
            report("failed", type(e).__name__, str(e)[:300], out.getvalue())
        else:
            report("ran", out.getvalue())
    msgs, code, log = disk.spawn(go, d, op["fault"], timeout=100.0)
    fired = disk.crashed(op["fault"], code) or any(m[0] == "ops" and m[3] for m in msgs)
    if fired:
        ctx.fault(op["fault"]["kind"])
    m = next((m for m in msgs if m[0] in ("exit", "failed", "ran")), None)
    if m is not None and m[0] == "exit":
        m = ("ran", m[2]) if m[1] in (None, 0) else ("failed", "SystemExit", str(m[1]), m[2])
    res = m[0] if m else "died"
    ctx.log("start", via, res, label, bool(good), want is not None, m[1] if res == "failed" else "")
    ctx.state(via, op.get("file"), canon(sorted(p)) if p else None, res)
    if res == "died":
        if not fired:
            raise Violation("start-died", f"{what}: exit status {code}")
        return res
    if res == "failed":
        if "successfully" in m[3]:
            raise Violation("success-claimed", f"{what}: ended with {m[1]}: {m[2]}, but announced success")
        if good and want is not None and not fired:
            raise Violation("start-refused", f"{what}: {m[1]}: {m[2]}")
        if p is None or not good:
            ctx.probe("refused")
            new = [n for n in disk.snapshot(d) if n not in before and n.endswith(".gz")]
            if new:
                raise Violation("results-of-a-refused-run", f"{what}: {m[1]}, but {new[0]} was written")
        return res
    if p is None:
        raise Violation("unreadable-input-accepted", f"{what}: the input file is missing or damaged, yet a simulation was completed")
    if "bad" in p:
        raise Violation("wrong-input-accepted", f"{what}: {p['bad']} = {p[p['bad']]!r} was accepted")
    if want is None:
        raise Violation("stuck-run-completed", f"{what}: no hop is possible, yet the run was completed")
    check_files(what, w, p, d, label, want)
    ctx.steps += len(want[2])
    ctx.sim_time += want[2][-1][1]
    return res


def begin(sc, op, p, d):
    """Start the simulation the way the scenario says."""
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC
    import kmcpy
    from kmcpy.api import run as api_run
    w, via = sc["world"], op["via"]
    if via == "cli":
        from kmcpy.cli import run_kmc
        old = sys.argv
        sys.argv = ["run_kmc", "--input", op["file"]] if op["salt"] % 2 else ["run_kmc", "--input=" + os.path.join(d, op["file"])]
        try:
            code = run_kmc.main()
        finally:
            sys.argv = old
        if code not in (None, 0):
            raise SystemExit(code)
        return
    if via == "file":
        api_run(Configuration.from_file(op["file"]))
        return
    if via == "section":
        data = None
        with contextlib.suppress(Exception):
            import yaml
            with open(op["file"]) as f:
                data = yaml.safe_load(f)
        if isinstance(data, dict) and "kmc" in data:
            kw = {"section": "kmc"}
            if isinstance(data["kmc"], dict) and "type" in data["kmc"]:
                kw["task_type"] = data["kmc"]["type"]
            KMC.from_config(Configuration.from_file(op["file"], **kw)).run()
        else:
            KMC.from_config(Configuration.from_file(op["file"])).run()
        return
    f = fields(w, p, d, op["paths"])
    f["supercell_shape"] = tuple(f["supercell_shape"])
    if via == "derived":
        g = fields(w, sc["sets"][op["other"]], d, "abs")
        if "bad" in sc["sets"][op["other"]]:
            g = fields(w, sc["sets"][0], d, "abs")
        g["supercell_shape"] = tuple(g["supercell_shape"])
        old = Configuration(**g)
        say = canon(old.as_dict(include_loader_paths=True))
        full = dict(json.loads(norm({}, d)), **f)
        full["supercell_shape"] = f["supercell_shape"]
        for k in ("kmc_passes", "equilibration_passes", "dimension"):
            full[k] = int(full[k])
        new = old.with_runtime_changes(**{k: v for k, v in full.items() if k not in SYSTEM})
        new = new.with_system_changes(**{k: v for k, v in full.items() if k in SYSTEM})
        if canon(old.as_dict(include_loader_paths=True)) != say:
            raise Violation("configuration-changed", "deriving a configuration changed the one it came from")
        api_run(new)
    elif via == "mixed":
        g = fields(w, sc["sets"][0], d, "abs")
        g["supercell_shape"] = tuple(g["supercell_shape"])
        old = Configuration(**g)
        sysf = Configuration(**f).system_config
        api_run(Configuration(system_config=sysf, **{k: v for k, v in f.items() if k not in SYSTEM}))
    elif via == "dict":
        api_run(Configuration.from_dict(json.loads(json.dumps(dict(f, **{"@module": "kmcpy.simulator.config"})))))
    elif via == "label":
        kmcpy.run(Configuration(**f), label=f"L{op['salt']}") if hasattr(kmcpy, "run") else api_run(Configuration(**f), label=f"L{op['salt']}")
    elif via == "direct":
        KMC.from_config(Configuration(**f)).run()
    else:
        api_run(Configuration(**f))


# -- result files ------------------------------------------------------------------------
def table(path):
    with gzip.open(path, "rt", newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], [[float("nan") if v == "" else float(v) for v in row] for row in rows[1:]]


def numbers(path):
    with gzip.open(path, "rt") as f:
        return [[float(v) for v in line.split(",")] for line in f if line.strip()]


def check_files(what, w, p, d, label, want):
    ref, fo, rows = want
    n = ref.pass_length
    last = p["kmc_passes"] - 1

    def read(name, fn):
        try:
            return fn(os.path.join(d, name))
        except Exception as e:
            raise Violation("result-missing", f"{what}: completed, but {name}: {type(e).__name__}: {str(e)[:100]}")
    occ = [int(x[0]) for x in read(f"current_occ_{label}_{last}.csv.gz", numbers)]
    if occ != rows[-1][2]:
        raise Violation("other-simulation", f"{what}: ended with occupations {occ}, the configured run ends with {rows[-1][2]}")
    hops = [int(x[0]) for x in read(f"hop_counter_{label}_{last}.csv.gz", numbers)]
    if hops != [int(x) for x in fo.hops]:
        raise Violation("other-simulation", f"{what}: hop counts {hops}, the configured run has {fo.hops.tolist()}")
    head, got = read(f"results_{label}.csv.gz", table)
    exp = due(p, rows, {}, n)
    if len(got) != len(exp):
        raise Violation("other-simulation", f"{what}: {len(got)} rows of results, {len(exp)} are due")
    off = {k for k, v in p.get("builtin_property_enabled", {}).items() if not v}
    cfg = ref.cfg
    for row, (step, time, _, m) in zip(got, exp):
        v = dict(zip(head, row))
        if not same(v["time"], time, 1e-8):
            raise Violation("other-simulation", f"{what}: step {step} at time {v['time']!r}, the configured run has {time!r}")
        for f in FIELDS:
            if f in off:
                if not math.isnan(v[f]):
                    raise Violation("disabled-field", f"{what}: {f} is switched off but has value {v[f]}")
                continue
            if fo.ties:
                continue
            dj2 = 1e-10 / (2 * cfg["dimension"] * time * max(len(fo.loc), 1)) * 1e-16
            sigma = (len(fo.loc) / ref.volume * 1e24 * (cfg["mobile_ion_charge"] * 1.602176634e-19) ** 2
                     / (1.380649e-23 * cfg["temperature"])) * 1e3
            atol = {"msd": 1e-7, "correlation_factor": 1e-7, "jump_diffusivity": 1e3 * dj2,
                    "tracer_diffusivity": 1e3 * dj2 * len(fo.loc), "conductivity": 1e3 * dj2 * sigma, "havens_ratio": 0.0}[f]
            if f == "havens_ratio" and not m["jump_diffusivity"] > 1e8 * dj2:
                continue
            if not same(v[f], m[f], rtol=3e-4 if f == "conductivity" else 1e-5, atol=atol):
                raise Violation("other-simulation", f"{what}: step {step}: {f} = {v[f]!r}, the configured run has {m[f]!r}")
    for c in p.get("property_callbacks", []):
        name = c.get("name", "trace")
        keep = [] if not c.get("enabled", True) or not c.get("store", True) else due(p, rows, c, n)
        if c.get("max_records"):
            keep = keep[-c["max_records"]:]
        f = os.path.join(d, f"properties_{label}.json.gz")
        if not keep:
            if os.path.exists(f):
                raise Violation("foreign-records", f"{what}: nothing was to be recorded, but {os.path.basename(f)} was written")
            continue
        recs = [x for x in read(f"properties_{label}.json.gz", lambda q: json.load(gzip.open(q, "rt"))) if x["name"] == name]
        if len(recs) != len(keep):
            raise Violation("other-simulation", f"{what}: {len(recs)} records of {name}, {len(keep)} are due")
        for x, (step, time, occ, _) in zip(recs, keep):
            val = x["value"]
            if x["step"] != step or val[0] != step or not same(val[1], time, 1e-8) or [int(o) for o in val[2:]] != occ:
                raise Violation("other-simulation", f"{what}: record {x} is not step {step} of the configured run ({time!r}, {occ})")


# -- shrinking ------------------------------------------------------------------------------
def shrink(sc):
    for k in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            n = copy.deepcopy(sc)
            del n["ops"][k]
            yield n
        for key, v in (("fault", None), ("style", "flat"), ("paths", "abs"), ("writer", "hand"), ("salt", 0)):
            if sc["ops"][k].get(key, v) != v:
                n = copy.deepcopy(sc)
                n["ops"][k][key] = v
                yield n
    for k, s in enumerate(sc["sets"]):
        for key in ("property_callbacks", "builtin_property_enabled", "property_sampling_interval",
                    "property_sampling_time_interval"):
            if key in s and s.get("bad") != key:
                n = copy.deepcopy(sc)
                del n["sets"][k][key]
                yield n
        for key, v in (("kmc_passes", 1), ("equilibration_passes", 0), ("random_seed", 0), ("start", "list")):
            if s.get(key) != v and s.get("bad") != key:
                n = copy.deepcopy(sc)
                n["sets"][k][key] = v
                yield n
