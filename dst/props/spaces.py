"""site spaces: artifacts of different site spaces are never mixed in one simulation."""
from __future__ import annotations

import copy
import functools
import json
import os
import random

from ..core import HarnessError, Violation, canon
from .. import disk, lce
from .. import project as P
from .. import world as W

LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("distinct event-log digests of runs in which at least one simulation of a matching set ran and at least one "
        "mixture was refused, or a fault hit a regeneration")
REAL = ["kmcpy.simulator.kmc.KMC.from_config and run", "kmcpy.structure.active_site_order.ActiveSiteOrder",
        "kmcpy.event.EventLib files and their index metadata", "kmcpy.simulator.state.State files",
        "CompositeLCEModel / LocalClusterExpansion / SiteEnergyModel / LocalBarrierModel files",
        "kmcpy.models.parameters.LCEModelParameters files", "the CIF reader"]
STUB = ["disk below libc (LD_PRELOAD shim): crashes, errors and torn writes during a regeneration, read errors at a start",
        "h5py (absent here): a minimal stand-in, for .h5 states", "the external energy code of the site-energy model"]
ASSUMPTIONS = ["coordinates and lattice of the structure stay the same between generations: kMCpy does not record them",
               "occupations are state indices of the allowed species",
               "damage to a file is truncation, loss of its metadata or an index out of range, not a consistent forgery"]
STATE_MEASURE = "distinct (what is wrong with the mixture, outcome, model kind, state file kind) tuples"

NEG = {"Na": 0.93, "Li": 0.98, "Si": 1.9, "S": 2.58, "O": 3.44}
STATE_FILES = {"initial": "initial_state.json", "json": "checkpoint.json", "h5": "checkpoint.h5"}


# -- generations -------------------------------------------------------------------
def species_of(w):
    return [s["sp"] for s in w["sites"]]


def space(sites, mapping, shape):
    """The site space as this harness understands it, or None."""
    out = []
    for sp in sites:
        if sp not in mapping:
            return None
        out.append((sp, tuple(mapping[sp])))
    if not any(len(a) > 1 for _, a in out):
        return None
    return (tuple(out), tuple(shape))


def allowed_of(sig):
    cells = sig[1][0] * sig[1][1] * sig[1][2]
    return [a for _, a in sig[0] if len(a) > 1 for _ in range(cells)]


def full_to_active(sig):
    """Indices of the active sites in the full supercell: site major, image minor."""
    cells = sig[1][0] * sig[1][1] * sig[1][2]
    return [k * cells + j for k, (_, a) in enumerate(sig[0]) if len(a) > 1 for j in range(cells)]


def pattern(spec):
    """State counts along the local environment of a cluster expansion."""
    sp = [x[0] for x in spec["sites"]]
    if spec["exclude"]:
        sp = sp[1:]
    n = {"Na": len(spec["na"]), "Si": 2, "O": 2}
    return [n[s] for s in sorted(sp)]


def mutate(r, w):
    """Another generation of the project: the same crystal, another site space (or the same)."""
    w = copy.deepcopy(w)
    m, sp = w["mapping"], set(species_of(w))
    keys = sorted(k for k in m if k in sp)
    how = r.choice(["shape", "shape", "order", "order", "more", "fixed", "drop", "add", "none", "none", "species"])
    if how == "shape":
        if r.random() < 0.6:
            r.shuffle(w["shape"])
        else:
            w["shape"][r.randrange(3)] = r.randint(1, 3)
    elif how == "order":
        k = r.choice(keys)
        m[k] = m[k][::-1] if r.random() < 0.6 else m[k][1:] + m[k][:1]
    elif how == "more":
        k = r.choice(keys)
        extra = [x for x in ("K", "S", "P", "X") if x not in m[k]]
        m[k] = m[k] + [r.choice(extra)]
    elif how == "fixed":
        k = r.choice(keys)
        m[k] = [m[k][0]] if len(m[k]) > 1 else m[k] + ["P"]
    elif how == "drop" and len(w["sites"]) > 1:
        w["sites"].pop(r.randrange(len(w["sites"])))
    elif how == "add":
        w["sites"].append({"sp": r.choice(keys), "f": [round(r.random(), 4) for _ in range(3)]})
    elif how == "species" and "S" not in sp:
        k = r.randrange(len(w["sites"]))
        if w["sites"][k]["sp"] in ("O", "Si"):
            m["S"] = list(m[w["sites"][k]["sp"]])
            w["sites"][k]["sp"] = "S"
    if r.random() < 0.4:   # the same mapping, written differently
        m = dict(r.sample(sorted(m.items()), len(m)))
        if r.random() < 0.5:
            m.setdefault("Zr", ["Zr"])
    w["mapping"] = m
    w["sites"].sort(key=lambda s: NEG[s["sp"]])
    return w


def equip(r, w, kind):
    """Events, occupations and model of a generation.  None if it makes no project."""
    w = copy.deepcopy(w)
    sig = space(species_of(w), w["mapping"], w["shape"])
    if sig is None:
        return None
    allowed = allowed_of(sig)
    n = len(allowed)
    if not 3 <= n <= 24 or len(full_to_active(sig)) != n:
        return None
    hop = [i for i, a in enumerate(allowed) if w["mobile"] in a and W.VACANCY in a]
    if len(hop) < 2:
        return None
    spec = None
    if kind == "composite":
        for _ in range(10):
            spec = lce.gen_spec(r)
            if all(sum(len(a) == c for a in allowed) >= 1 for c in pattern(spec)):
                break
        else:
            return None
    pairs = []
    order = hop[:]
    r.shuffle(order)
    for a, b in zip(order, order[1:]):
        pairs.append((a, b))
    for _ in range(r.randint(0, 4)):
        a, b = r.sample(hop, 2)
        if (a, b) not in pairs and (b, a) not in pairs:
            pairs.append((a, b))
    events = []
    for a, b in pairs:
        if spec:
            env = [r.choice([i for i, al in enumerate(allowed) if len(al) == c]) for c in pattern(spec)]
        else:
            env = r.sample(range(n), r.randint(0, min(4, n)))
        events.append({"m": [a, b], "env": env})
    for _ in range(20):
        occ = [r.randrange(len(a)) for a in allowed]
        if any(allowed[x][occ[x]] == w["mobile"] and allowed[y][occ[y]] == W.VACANCY
               for p in pairs for x, y in (p, p[::-1])):
            break
    else:
        return None
    w["events"], w["occ"] = events, occ
    w["bare"] = w["hetero"] = False
    if spec:
        w["model"] = {"kind": "lce-file", "spec": spec, "keci": [round(r.uniform(-20, 20), 3) for _ in range(60)],
                      "empty": round(r.uniform(100, 300), 2), "scale": round(r.uniform(-5, 5), 3),
                      "site": r.choice(["none", "bound", "bound", "loose", "lce"])}
    else:
        w["model"] = {"kind": "barrier-file", "default": round(r.uniform(50, 400), 2),
                      "rule": [r.randint(0, 2), round(r.uniform(50, 400), 2)]}
    ref = W.RefWorld(dict(w, model={"kind": "barrier", "default": 1.0, "rules": []}))
    if ref.pass_length < 1 or not ref.geometry_ok():
        return None
    return w


def gen(r, tier, i):
    if r.random() < 0.12:
        return gen_params(r)
    kind = r.choice(["barrier", "composite", "composite"])
    for _ in range(500):
        w = W.gen_world(r, max_sites=r.choice([6, 10, 14]), project=True, model="barrier", hetero=0.4,
                        passes=(1, 2), eq=(0, 1))
        gens = [equip(r, w, kind)]
        if gens[0] is None:
            continue
        for _ in range(200):
            if len(gens) >= 3:
                break
            g = equip(r, mutate(r, r.choice(gens)), kind)
            if g is not None:
                gens.append(g)
        if len(gens) == 3:
            break
    else:
        raise RuntimeError("no project found")
    ops = []
    n = r.choice([2, 3, 4, 6])
    for _ in range(n):
        tidy = r.random() < 0.65
        if tidy:   # a consistent project in which at most one thing goes stale or breaks
            ops.append({"op": "write", "what": "all", "gen": r.randrange(3), "fault": None})
        for _ in range(r.choice([0, 1, 1]) if tidy else r.choice([0, 1, 1, 2, 3])):
            what = r.choice(["cif", "events", "events", "model", "state", "all"])
            ops.append({"op": "write", "what": what, "gen": r.randrange(3),
                        "fault": disk.gen_fault(r, r.choice([4, 10, 25])) if r.random() < 0.35 else None})
        if r.random() < 0.2:
            ops.append({"op": "damage", "what": r.choice(["events", "events", "model", "state"]),
                        "how": r.choice(["cut", "strip", "index", "env", "negative", "list"]), "at": r.random()})
        ops.append({"op": "start", "gen": r.choice([None, None, 0, 1, 2]), "state": r.choice(["file", "file", "list"]),
                    "full": r.random() < 0.4, "seed": r.randrange(1000),
                    "fault": disk.gen_fault(r, r.choice([3, 8]), ["readerr", "readshort"]) if r.random() < 0.15 else None})
    return {"gens": gens, "first": r.randrange(3), "state": r.choice(sorted(STATE_FILES)),
            "full": r.random() < 0.4, "ops": ops}


# -- artifacts ---------------------------------------------------------------------
def order_of(w, d):
    return P.load_order(w, os.path.join(d, "structure.cif"))


@functools.lru_cache(maxsize=64)
def _order(text):
    """The active-site order of a generation, from the structure itself."""
    import tempfile
    w = json.loads(text)
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        with open(os.path.join(d, "structure.cif"), "w") as f:
            f.write(P.cif_text(w))
        return order_of(w, d)


def order(w):
    return _order(canon({k: w[k] for k in ("lattice", "sites", "mapping", "shape")}))


def model_of(w):
    m = w["model"]
    if m["kind"] == "barrier-file":
        from kmcpy.models.local_barrier_model import LocalBarrierModel
        return LocalBarrierModel(rules=[{"type": "state_count", "sites": "local_env", "state": m["rule"][0],
                                         "min_count": 1, "barrier": m["rule"][1]}], default_barrier=m["default"])
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.site_energy import SiteEnergyModel
    kra = fitted(m["spec"], m["keci"], m["empty"])
    site = None
    if m["site"] in ("bound", "loose"):
        site = SiteEnergyModel(compute_ref="dst.refs:site_energy", compute_kwargs={"scale": m["scale"]},
                               **({"active_site_order": order(w)} if m["site"] == "bound" else {}))
    elif m["site"] == "lce":
        site = fitted(m["spec"], m["keci"][::-1], 1.0)
    return CompositeLCEModel(site_model=site, kra_model=kra)


def fitted(spec, keci, empty):
    x = lce.build(spec)
    if list(lce.states_per_site(x)) != pattern(spec):
        raise HarnessError(f"local environment {lce.states_per_site(x)} is not {pattern(spec)}")
    x.set_parameters(params(x, keci, empty))
    return x


def params(x, keci, empty):
    return {"keci": [keci[j % len(keci)] for j in range(lce.n_features(x))], "empty_cluster": empty,
            "orbit_fingerprints": x.get_orbit_fingerprints(), "local_environment_hash": x.local_environment_hash}


def spread(w, occ):
    """Active values inside a full-supercell list (fixed sites hold their only state)."""
    sig = space(species_of(w), w["mapping"], w["shape"])
    cells = sig[1][0] * sig[1][1] * sig[1][2]
    out = [0] * (cells * len(sig[0]))
    for v, k in zip(occ, full_to_active(sig)):
        out[k] = v
    return out


def values(w, full):
    return spread(w, w["occ"]) if full else list(w["occ"])


def put(what, w, d, sc):
    """Write one artifact of one generation with the real writers."""
    if what == "cif":
        with open(os.path.join(d, "structure.cif"), "w") as f:
            f.write(P.cif_text(w))
    elif what == "events":
        P.make_lib(w, order(w), deps=len(w["events"]) % 2 == 0).to(os.path.join(d, "events.json"))
    elif what == "model":
        model_of(w).to(os.path.join(d, "model.json"))
    elif what == "state":
        p = os.path.join(d, STATE_FILES[sc["state"]])
        if sc["state"] == "initial":
            with open(p, "w") as f:
                json.dump({"occupation": values(w, sc["full"])}, f)
        else:
            from kmcpy.simulator.state import State
            State(occupations=values(w, sc["full"] and sc["state"] == "json"), time=0.0, step=0).save_checkpoint(p)


FILE = {"cif": "structure.cif", "events": "events.json", "model": "model.json"}


def name_of(what, sc):
    return STATE_FILES[sc["state"]] if what == "state" else FILE[what]


# -- one start ---------------------------------------------------------------------
def start(report, w, d, state, vals, seed):
    """KMC.from_config on directory d and a short run; in a process of its own."""
    from kmcpy.simulator.kmc import KMC
    over = {"initial_occupations": vals} if state == "list" else {"initial_state_file": os.path.join(d, state)}
    k = None
    try:
        cfg = P.configuration(w, d, random_seed=seed, **over)
        k = KMC.from_config(cfg)
        first = k.simulation_state.step
        occ0 = [int(x) for x in k.simulation_state.occupations]
        if not any(k.prob_list):
            report("ran", occ0, [float(x).hex() for x in k.prob_list], [], [], "0", 0)
            return
        tr = k.run()
        st = k.simulation_state
        report("ran", occ0, [float(x).hex() for x in k.prob_list],
               {n: [float(x).hex() for x in v] for n, v in tr.results.items()},
               [int(x) for x in st.occupations], float(st.time).hex(), int(st.step) - first)
    except Exception as e:
        done = int(k.simulation_state.step) if k is not None else 0
        if done and isinstance(e, ZeroDivisionError) and not any(k.prob_list):
            # every hop has become impossible (rates underflow): nothing is left to do
            report("ran", occ0, [], [], [int(x) for x in k.simulation_state.occupations], "0", done)
            return
        report("refused", type(e).__name__, str(e)[:300], done)


def outcome(w, d, state, vals, seed, fault, here):
    if fault is not None:
        disk_fault = fault
    else:
        disk_fault = None
    os.makedirs(os.path.join(here, "cwd"), exist_ok=True)

    def go(report):
        os.chdir(os.path.join(here, "cwd"))
        start(report, w, d, state, vals, seed)
    try:
        msgs, code, _ = disk.spawn(go, d, disk_fault, timeout=100.0)
    except Violation as v:
        return ("died", v.detail), False
    fired = any(m[0] == "ops" and m[3] for m in msgs)
    for m in msgs:
        if m[0] in ("ran", "refused"):
            return m, fired
    return ("died", f"exit status {code}"), fired


# -- the run -----------------------------------------------------------------------
def run(sc, ctx):
    from .. import fakeh5
    with fakeh5.installed():
        if "specs" in sc:
            run_params(sc, ctx)
        else:
            _run(sc, ctx)


def _run(sc, ctx):
    here = os.path.realpath(ctx.scratch)
    d = os.path.join(here, "project")
    os.makedirs(d)
    parts = ["cif", "events", "model", "state"]
    pristine = {}
    for g, w in enumerate(sc["gens"]):
        p = os.path.join(here, f"fresh{g}")
        os.makedirs(p)
        for what in parts:
            put(what, w, p, sc)
            with open(os.path.join(p, name_of(what, sc)), "rb") as f:
                pristine[what, g] = f.read()
    mark = {what: sc["first"] for what in parts}
    for what in parts:
        with open(os.path.join(d, name_of(what, sc)), "wb") as f:
            f.write(pristine[what, sc["first"]])
    started = refused = hit = 0
    for op in sc["ops"]:
        if op["op"] == "write":
            whats = parts if op["what"] == "all" else [op["what"]]
            w = sc["gens"][op["gen"]]

            def go(report):
                for x in whats:
                    try:
                        put(x, w, d, sc)
                    except Exception as e:
                        report("failed", f"{type(e).__name__}: {str(e)[:200]}")
                        break
            before = disk.snapshot(d)
            msgs, code, log = disk.spawn(go, d, op["fault"])
            fired = any(m[0] == "ops" and m[3] for m in msgs) or code != 0
            for m in msgs:
                if m[0] == "failed" and not fired:
                    raise Violation("regeneration-failed", f"writing {op['what']} of generation {op['gen']}: {m[1]}")
            if fired and op["fault"]:
                ctx.fault(op["fault"]["kind"])
                hit += 1
                if op["fault"]["kind"].startswith("power"):
                    disk.power_loss(d, before, log, random.Random(op["fault"]["salt"]))
            for x in parts:
                mark[x] = seen(x, d, sc, pristine)
            ctx.log("write", op["what"], op["gen"], canon(mark))
        elif op["op"] == "damage":
            if damage(op, d, sc):
                ctx.fault("damage-" + op["how"])
            mark[op["what"]] = seen(op["what"], d, sc, pristine)
            ctx.log("damage", op["what"], op["how"], canon(mark))
        else:
            g = op["gen"]
            if g is None:
                g = mark["events"] if isinstance(mark["events"], int) else 0
            k = one_start(sc, op, g, d, here, mark, pristine, ctx)
            started += k == "ran"
            refused += k == "refused"
    if (started and refused) or (started and hit):
        ctx.nontrivial = True


def seen(what, d, sc, pristine):
    """Which generation's artifact lies in the project: a number, or None."""
    try:
        with open(os.path.join(d, name_of(what, sc)), "rb") as f:
            b = f.read()
    except FileNotFoundError:
        return None
    for (x, g), ref in pristine.items():
        if x == what and ref == b:
            return g
    if what != "cif" and not (what == "state" and sc["state"] == "h5"):
        try:
            v = json.loads(b)
        except ValueError:
            return None
        for (x, g), ref in pristine.items():
            if x == what and json.loads(ref) == v:
                return g
        if what == "state" and isinstance(v, dict):
            # a plain list of occupations carries nothing that could betray a torn write
            vals = v.get("occupation" if sc["state"] == "initial" else "occupations")
            if isinstance(vals, list) and vals and all(type(x) is int for x in vals):
                return {"values": vals}
        return "edited"
    return None


def damage(op, d, sc):
    p = os.path.join(d, name_of(op["what"], sc))
    if not os.path.exists(p):
        return False
    how = op["how"]
    with open(p, "rb") as f:
        b = f.read()
    if how == "cut" or op["what"] != "events":
        with open(p, "wb") as f:
            f.write(b[:int(len(b) * op["at"] * 0.98)])
        return True
    try:
        v = json.loads(b)
    except ValueError:
        return False
    if not isinstance(v, dict) or not v.get("events") or not v.get("index_metadata"):
        return False
    e = v["events"][int(op["at"] * len(v["events"]))]
    n = len(v["index_metadata"]["active_to_original"])
    if how == "strip":
        v["index_metadata"] = None
    elif how == "list":
        v = v["events"]
    elif how == "index":
        e["mobile_ion_indices"] = [e["mobile_ion_indices"][0], n + int(op["at"] * 3)]
    elif how == "negative":
        e["mobile_ion_indices"] = [-1, e["mobile_ion_indices"][1]]
    elif how == "env":
        env = list(e["local_env_indices"])
        env.insert(int(op["at"] * 97) % (len(env) + 1), n)
        e["local_env_indices"] = env
    with open(p, "w") as f:
        json.dump(v, f)
    return True


def faults_of(sc, op, g, mark):
    """(what must make kMCpy refuse, what may)"""
    must, may = [], []
    w = sc["gens"][g]
    if mark["cif"] is None:
        # a damaged CIF file may still be read
        return ["structure file"], []
    here = space(species_of(sc["gens"][mark["cif"]]), w["mapping"], w["shape"])
    if here is None:
        return ["a species without site_mapping entry, or no active site"], []
    allowed = allowed_of(here)
    ev = mark["events"]
    if not isinstance(ev, int):
        must.append("event file lost or damaged")
    else:
        x = sc["gens"][ev]
        if space(species_of(x), x["mapping"], x["shape"]) != here:
            must.append("events of another site space")
    mo = mark["model"]
    if not isinstance(mo, int):
        must.append("model file lost or damaged")
    else:
        x = sc["gens"][mo]
        m = x["model"]
        if m["kind"] == "lce-file":
            if m["site"] == "bound" and space(species_of(x), x["mapping"], x["shape"]) != here:
                must.append("site-energy model of another site space")
            if isinstance(ev, int) and not must:
                pat = pattern(m["spec"])
                for e in sc["gens"][ev]["events"]:
                    got = [len(allowed[i]) for i in e["env"]]
                    if len(got) < len(pat):
                        must.append("cluster expansion of a larger local environment")
                        break
                    if m["spec"]["basis"] != "occupation" and any(a > b for a, b in zip(got, pat)):
                        must.append("cluster expansion of fewer species")
                        break
                    if got != pat:
                        may.append("cluster expansion of another local environment")
                if m["site"] == "loose":
                    pass
    if op["state"] == "list":
        vals = values(w, op["full"])
    elif isinstance(mark["state"], dict):
        vals = mark["state"]["values"]
    elif not isinstance(mark["state"], int):
        must.append("state file lost or damaged")
        vals = None
    else:
        vals = values(sc["gens"][mark["state"]], sc["full"] and sc["state"] != "h5")
    if vals is not None:
        if len(vals) == len(allowed):
            act = vals
        elif len(vals) == sum(1 for _ in here[0]) * here[1][0] * here[1][1] * here[1][2]:
            act = [vals[i] for i in full_to_active(here)]
        else:
            act = None
            must.append("state of another number of sites")
        if act is not None and any(not 0 <= v < len(a) for v, a in zip(act, allowed)):
            must.append("state with state indices beyond the allowed species")
        if not must and act is not None:
            return must, may, act
    return must, may


def one_start(sc, op, g, d, here, mark, pristine, ctx):
    w = sc["gens"][g]
    res = faults_of(sc, op, g, mark)
    must, may = res[0], res[1]
    if mark["cif"] is None and must == ["structure file"] and os.path.exists(os.path.join(d, FILE["cif"])):
        ctx.log("start skipped: torn structure file")
        return None
    vals = values(w, op["full"]) if op["state"] == "list" else None
    state = "list" if op["state"] == "list" else STATE_FILES[sc["state"]]
    got, fired = outcome(w, d, state, vals, op["seed"], op["fault"], here)
    if fired:
        ctx.fault(op["fault"]["kind"])
    what = f"configuration of generation {g}, files {canon(mark)}, state from {state}"
    ctx.log("start", g, canon(must), got[0], repr(got[1:])[:2000] if got[0] != "refused" else got[1])
    ctx.state(must[:1], may[:1], got[0], w["model"]["kind"], state)
    if got[0] == "died":
        raise Violation("start-crashed", f"{what}: {got[1]}")
    if must:
        if got[0] == "ran":
            raise Violation("mixture-ran", f"{what}: started although {must[0]}")
        if got[3]:
            raise Violation("refused-late", f"{what}: {got[1]} after {got[3]} steps although {must[0]}")
        return "refused"
    if got[0] == "refused":
        if fired or may:
            return "refused"
        raise Violation("matching-set-refused", f"{what}: {got[1]}: {got[2]}")
    # a fresh directory with just these artifacts
    act = res[2]
    q = os.path.join(here, "again")
    os.makedirs(q, exist_ok=True)
    for x in ("cif", "events", "model"):
        with open(os.path.join(q, FILE[x]), "wb") as f:
            f.write(pristine[x, mark[x]])
    want, _ = outcome(w, q, "list", act, op["seed"], None, here)
    if want[0] != "ran":
        raise Violation("matching-set-refused", f"{what}: the freshly written set gives {want[1:3]}")
    if want[1:] != got[1:]:
        n = next(i for i, (a, b) in enumerate(zip(got[1:], want[1:])) if a != b)
        field = ("initial occupations", "rates", "results", "final occupations", "time", "steps")[n]
        raise Violation("not-the-matching-simulation", f"{what}: {field} {str(got[1 + n])[:200]} instead of {str(want[1 + n])[:200]}")
    if act != got[1]:
        raise Violation("not-the-matching-simulation", f"{what}: starts from {got[1]} instead of {act}")
    ctx.steps += int(got[6])
    ctx.sim_time += float.fromhex(got[5]) if got[5] != "0" else 0.0
    return "ran"


# -- parameters of cluster expansions --------------------------------------------------
def gen_params(r):
    specs = [lce.gen_spec(r)]
    while len(specs) < 3:
        s = copy.deepcopy(r.choice(specs))
        how = r.choice(["new", "move", "species", "exclude", "cut", "basis", "na", "swap"])
        if how == "new":
            s = lce.gen_spec(r)
        elif how == "move":
            s["sites"][-1][1][r.randrange(3)] += r.choice([-1, 1])
        elif how == "species":
            s["sites"][-1][0] = r.choice(["Na", "Si", "O"])
        elif how == "exclude":
            s["exclude"] = not s["exclude"]
        elif how == "cut":
            s["cut"] = r.choice([[3.0, 3.0, 0.0], [4.0, 0.0, 0.0], [2.5, 2.5, 2.5]])
        elif how == "basis":
            s["basis"] = r.choice(["chebyshev", "occupation"])
        elif how == "na":
            s["na"] = r.choice([["Na", "X"], ["Na", "K", "X"]])
        if len({tuple(x[1]) for x in s["sites"]}) != len(s["sites"]):
            continue
        specs.append(s)
    acts = []
    for _ in range(r.choice([4, 8, 12])):
        acts.append({"of": r.randrange(3), "into": r.randrange(3), "via": r.choice(["dict", "object", "file", "model"]),
                     "drop": r.choice([None, None, None, "orbits", "hash"]),
                     "shuffle": r.randrange(1000) if r.random() < 0.25 else None})
        if acts[-1]["shuffle"] is not None and r.random() < 0.7:
            acts[-1]["of"] = acts[-1]["into"]
    return {"specs": specs, "keci": [round(r.uniform(-20, 20), 3) for _ in range(60)], "acts": acts}


def environment(spec):
    """The sites of the local environment relative to its centre."""
    c = spec["sites"][0][1]
    sites = spec["sites"][1:] if spec["exclude"] else spec["sites"]
    return sorted((s, tuple(a - b for a, b in zip(x, c))) for s, x in sites)


def run_params(sc, ctx):
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.parameters import LCEModelParameters
    import warnings
    n = {"taken": 0, "refused": 0}
    for k, a in enumerate(sc["acts"]):
        A, B = sc["specs"][a["of"]], sc["specs"][a["into"]]
        src, dst = lce.build(A), lce.build(B)
        p = params(src, sc["keci"], 1.5)
        if a.get("shuffle") is not None:   # the same fit, its clusters listed in another order
            perm = list(range(len(p["keci"])))
            random.Random(a["shuffle"]).shuffle(perm)
            p["keci"] = [p["keci"][j] for j in perm]
            p["orbit_fingerprints"] = [p["orbit_fingerprints"][j] for j in perm]
        prints = list(p["orbit_fingerprints"])
        if a["drop"]:
            p.pop({"orbits": "orbit_fingerprints", "hash": "local_environment_hash"}[a["drop"]])
        must = []
        if lce.n_features(src) != lce.n_features(dst):
            must.append("another number of features")
        if a["drop"] != "hash" and environment(A) != environment(B):
            must.append("another local environment")
        if a["drop"] != "orbits" and prints != dst.get_orbit_fingerprints():
            must.append("other orbits, or another order of them")
        err = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if a["via"] == "dict":
                    dst.set_parameters(p)
                    m = dst
                elif a["via"] in ("object", "file"):
                    q = LCEModelParameters.from_dict(dict({"weight": 1.0, "alpha": 0.1, "time_stamp": 0.0, "time": "t",
                                                           "rmse": 0.0, "loocv": 0.0}, **p))
                    if a["via"] == "file":
                        q.to(f"p{k}.json")
                        dst.load_parameters_from_file(f"p{k}.json")
                    else:
                        dst.set_parameters(q)
                    m = dst
                else:
                    dst.set_parameters(params(dst, sc["keci"], 1.5))
                    full = CompositeLCEModel(kra_model=dst).as_dict()
                    full["kra"]["parameters"] = p
                    m = CompositeLCEModel.from_dict(json.loads(json.dumps(full))).kra_model
                got = lce.probe(m, B)
            except Exception as e:
                err = e
        ctx.log("params", a["of"], a["into"], a["via"], str(a["drop"]), canon(must), type(err).__name__)
        ctx.state("params", must[:1], a["via"], a["drop"], err is None)
        what = f"parameters of {canon(A)} given to {canon(B)} by {a['via']} (without {a['drop']}, order {a.get('shuffle')})"
        if must and err is None:
            raise Violation("foreign-parameters", f"{what}: taken although {must[0]}")
        if not must and A == B and a.get("shuffle") is None and err is not None:
            raise Violation("matching-parameters-refused", f"{what}: {type(err).__name__}: {str(err)[:200]}")
        if err is None and (a.get("shuffle") is None or a["drop"] != "orbits"):
            n["taken"] += 1
            ok = lce.build(B)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok.set_parameters(params(ok, sc["keci"], 1.5))
            want = lce.probe(ok, B)
            if got != want:
                raise Violation("foreign-parameters", f"{what}: energies {got} instead of {want}")
        elif err is not None:
            n["refused"] += 1
    if n["taken"] and n["refused"]:
        ctx.nontrivial = True


# -- shrinking ---------------------------------------------------------------------
def shrink(sc):
    key = "acts" if "specs" in sc else "ops"
    for k in range(len(sc[key])):
        n = copy.deepcopy(sc)
        del n[key][k]
        if n[key]:
            yield n
    for k, op in enumerate(sc[key]):
        if op.get("fault"):
            n = copy.deepcopy(sc)
            n[key][k]["fault"] = None
            yield n
        for name, simple in (("full", False), ("drop", None), ("shuffle", None), ("via", "dict"), ("gen", 0), ("seed", 0)):
            if name in op and op[name] != simple:
                n = copy.deepcopy(sc)
                n[key][k][name] = simple
                yield n


def warm(path):
    from .common import warm_jit
    warm_jit(path)
    m = lce.build({"sites": [["Na", [5, 5, 5]], ["Si", [6, 5, 5]]], "na": ["Na", "X"], "cut": [3.0, 3.0, 0.0],
                   "basis": "chebyshev", "exclude": False})
    m.set_parameters(params(m, [1.0] * 60, 0.0))
    lce.probe(m, {"sites": [0, 0], "exclude": False, "basis": "chebyshev"}, k=1)
    m = lce.build({"sites": [["Na", [5, 5, 5]], ["Si", [6, 5, 5]]], "na": ["Na", "X"], "cut": [3.0, 3.0, 0.0],
                   "basis": "occupation", "exclude": False})
    m.set_parameters(params(m, [1.0] * 60, 0.0))
    lce.probe(m, {"sites": [0, 0], "exclude": False, "basis": "occupation"}, k=1)
