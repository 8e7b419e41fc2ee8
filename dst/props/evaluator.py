"""external evaluator: it sees the true occupations, and each hop once."""
from __future__ import annotations

import copy
import json

from ..core import Violation
from .. import world as W
from ..session import LIB_STYLES, Session, gen_faults
from .common import shrink_with_world

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("distinct event-log digests of runs in which the evaluator was told of at least 3 hops and "
        "asked for at least 10 energies")
REAL = ["kmcpy.models.site_energy.SiteEnergyModel", "kmcpy.models.composite_lce_model.CompositeLCEModel",
        "kmcpy.simulator.kmc.KMC", "kmcpy.simulator.state.State", "kmcpy.event"]
STUB = ["the external energy code (a simulated evaluator with its own site order and values)",
        "constant E_KRA (a LocalClusterExpansion subclass)", "user callbacks"]
ASSUMPTIONS = ["different states of one site have different external values",
               "distinct kMCpy sites map to distinct external sites",
               "after an error its owner brings the evaluator back to the simulation's occupations",
               "an explicit external_dtype can hold the mapped values",
               "the evaluator does not write into the array it is handed"]
STATE_MEASURE = "distinct (value family, source value, target value, array type) tuples"

POOLS = {
    "int": [5, 7, 11, -3, 0, 1, 2, 100],
    "float": [0.5, -1.25, 3.75, 0.1, 2.5, -0.3, 1e-3, 7.125],
    "number": [1, 2, 0.5, 3, 1.5, -2, -0.25, 4],
    "str": ["a", "Li", "Na+", "vacancy", "X", "K", "interstitial", "b"],
    "mixed": ["X", 1, "Li", 2.5, "vac", -4, "Na", 0],
}


def gen_map(r, ref):
    n, fam = ref.n, r.choice(["none", "int", "int", "float", "number", "number", "str", "mixed"])
    m = {"family": fam, "sites": None, "site_style": r.choice(["list", "dict", "str"]),
         "states": None, "state_style": r.choice(["list", "dict", "str"]), "by_site": None,
         "size": None, "initial": None, "fill": 0, "dtype": None}
    most = max(len(a) for a in ref.allowed)
    width = n
    if r.random() < 0.7:
        width = n + r.choice([0, 0, 1, 3])
        ext = list(range(width))
        r.shuffle(ext)
        m["sites"] = ext[:n]
    pool = POOLS.get(fam)
    if pool:
        style = r.choice(["global", "global", "site", "both"])
        if style in ("global", "both"):
            m["states"] = r.sample(pool, most)
        if style in ("site", "both"):
            m["by_site"] = [r.sample(pool, most) if style == "site" or r.random() < 0.6 else None
                            for _ in range(n)]
    rest = pool or [0, 1, 2]
    t = r.random()
    if t < 0.3:
        m["size"] = width + r.choice([0, 2])
    elif t < 0.55:
        # a full occupation of the external code, fixed sites included
        other = r.choice([rest, rest, POOLS["int"]])
        m["initial"] = [r.choice(other) for _ in range(width + r.choice([0, 1]))]
    if r.random() < 0.3:
        m["fill"] = r.choice(rest)
    if r.random() < 0.2:
        m["dtype"] = "object"
    elif fam in ("int", "float", "number", "none") and r.random() < 0.2:
        m["dtype"] = "float"
    elif fam in ("int", "none") and r.random() < 0.3:
        m["dtype"] = "int32"
    if m["dtype"] == "int32" and m["initial"] is not None and any(not isinstance(x, int) for x in m["initial"]):
        m["dtype"] = None
    if m["dtype"] == "float" and m["initial"] is not None and any(isinstance(x, str) for x in m["initial"]):
        m["dtype"] = None
    return m


def gen(r, tier, i):
    w = W.gen_world(r, max_sites=r.choice([6, 10, 14]), model="composite", hetero=0.4, passes=(1, 4))
    ref = W.RefWorld(w)
    w["model"]["map"] = {"sites": None, "states": None, "by_site": None, "size": None,
                         "initial": None, "dtype": None}
    steps = ref.pass_length * (w["cfg"]["kmc_passes"] + w["cfg"]["equilibration_passes"])
    ops = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        if ops:
            k = r.random()
            if k < 0.2:
                ops.append({"op": "restart", "via": r.choice(["copy", "dict", "same"])})
            elif k < 0.4:
                ops.append({"op": "other", "occ": _other(r, ref, w["occ"])})
            elif k < 0.55:
                ops.append({"op": "reload", "via": r.choice(["file", "dict"])})
        f = []
        if r.random() < 0.4:
            f = [x for x in gen_faults(r, steps, io=False) if x["at"] in ("compute", "apply", "callback")]
        ops.append({"op": "run", "faults": f})
    m = gen_map(r, ref)
    bad = gen_bad(r, ref, w, m) if r.random() < 0.12 else None
    return {"world": w, "map": m, "bad": bad, "empty": r.random() < 0.5, "style": r.choice(["full", "full", "kwargs", "subset", "ref"]),
            "apply": r.random() < 0.9, "units": r.choice(["meV", "eV", "EV"]), "lib": r.choice(LIB_STYLES),
            "k": r.randint(1, max(1, len(w["events"]) - 1)), "order": r.random() < 0.5, "ops": ops}


def gen_bad(r, ref, w, m):
    """A mapping that leaves the evaluator without an answer."""
    i = r.randrange(ref.n)
    kinds = ["negative"]
    if m["sites"] is not None:
        kinds += ["site", "site"]
    if m["size"] is not None or m["initial"] is not None:
        kinds.append("range")
    if (m["states"] is None) != (m["by_site"] is None):
        kinds += ["state"] * 4
    return {"kind": r.choice(kinds), "site": i, "state": int(w["occ"][i])}


def _other(r, ref, occ):
    """Another occupation of the same sites, with at least one possible hop."""
    for _ in range(20):
        new = list(occ)
        for i in ref.hop_sites:
            new[i] = r.randrange(len(ref.allowed[i]))
        if ref.total_rate(new) > 0:
            return new
    return list(occ)


class External:
    """The simulated external code.  `mine` is what it has been told."""

    def __init__(self, sc, s):
        self.sc, self.s, self.map = sc, s, sc["map"]
        self.ref, self.ctx = s.ref, s.ctx
        self.state = None
        self.asked = self.told = 0
        self.found = []
        self.base = self.epoch = 0

    # -- encoding ---------------------------------------------------------------
    def site(self, i):
        return self.map["sites"][i] if self.map["sites"] is not None else i

    def value(self, i, state):
        b = self.map["by_site"]
        if b is not None and b[i] is not None:
            return b[i][state]
        if self.map["states"] is not None:
            return self.map["states"][state]
        return state

    def encoded(self, occ):
        return {self.site(i): self.value(i, int(o)) for i, o in enumerate(occ)}

    def sync(self, state):
        """The owner sets the evaluator to the simulation's occupations."""
        self.state = state
        self.occ = [int(o) for o in state.occupations]
        self.mine = self.encoded(self.occ)
        self.told = 0
        self.epoch += 1
        self.base = int(state.step)

    # -- what every call must look like ---------------------------------------------
    def fail(self, kind, text):
        if not self.found:
            self.found.append(Violation(kind, text))

    def check_array(self, arr, want, where):
        if arr is None:
            return
        m = self.map
        if len(arr) <= max(want):
            return self.fail("external-occupation", f"{where}: the array has {len(arr)} entries, site {max(want)} is mapped")
        for k in range(len(arr)):
            got = arr[k]
            got = got.item() if hasattr(got, "item") else got
            if k in want:
                exp = want[k]
            elif m["initial"] is not None:
                exp = m["initial"][k]
            else:
                exp = m["fill"]
            if isinstance(exp, str) != isinstance(got, str) or got != exp:
                return self.fail("external-occupation",
                                 f"{where}: external site {k} holds {got!r}, the simulation has {exp!r} there")

    def check_changes(self, changes, before, hops, where):
        got = sorted((int(c.kmcpy_site), int(c.external_site), int(c.old_state), int(c.new_state),
                      repr(c.old_value), repr(c.new_value)) for c in changes)
        flips = [tuple(c.as_flip()) for c in changes]
        if flips != [(c.external_site, c.new_value) for c in changes]:
            self.fail("changes", f"{where}: flips {flips!r} do not match the changes")
        for after in hops:
            want = sorted((i, self.site(i), before[i], after[i], repr(self.value(i, before[i])),
                           repr(self.value(i, after[i]))) for i in range(self.ref.n) if before[i] != after[i])
            if got == want:
                return
        self.fail("changes", f"{where}: changes {got}, the hop is {want if hops else None}")

    def hops_of(self, occ, event):
        out = []
        for e in self.ref.events:
            if event is not None and tuple(event.mobile_ion_indices) != tuple(e["m"]):
                continue
            if self.ref.direction(occ, e):
                out.append(self.ref.apply(occ, e)[0])
        return out

    # -- callbacks -----------------------------------------------------------------
    def energy(self, arr, changes, event=None, state=None, tag=7):
        self.asked += 1
        self.s.point("compute", "before")
        st = state if state is not None else self.state
        occ = [int(o) for o in st.occupations]
        if tag != 7:
            self.fail("arguments", f"compute_kwargs tag arrived as {tag!r}")
        if occ != [int(o) for o in self.state.occupations]:
            self.fail("wrong-state", "asked about a state that is not the simulation's")
        self.check_array(arr, self.encoded(occ), "asked for an energy")
        self.check_changes(changes, occ, self.hops_of(occ, event), "asked for an energy")
        if self.sc["apply"]:
            if self.told != int(st.step) - self.base:
                self.fail("missed-hop", f"{int(st.step) - self.base} hops happened, the evaluator was told of {self.told}")
            elif self.mine != self.encoded(occ):
                self.fail("stale-evaluator", "the evaluator's own occupation is not the simulation's")
        new = list(occ)
        for c in changes:
            new[int(c.kmcpy_site)] = int(c.new_state)
        try:
            de = self.ref.site_energy(new) - self.ref.site_energy(occ)
        except Exception:
            de = 0.0
        self.s.point("compute", "after")
        return de if self.sc["units"] == "meV" else de / 1000.0

    def commit(self, arr, changes, event, state, tag=9):
        self.told += 1
        occ = [int(o) for o in state.occupations]
        if tag != 9:
            self.fail("arguments", f"apply_kwargs tag arrived as {tag!r}")
        self.check_array(arr, self.encoded(self.occ), "told of a hop")
        hops = self.hops_of(self.occ, event)
        if occ not in hops:
            self.fail("wrong-hop", f"told of event {tuple(event.mobile_ion_indices)}: {self.occ} -> {occ}")
        self.check_changes(changes, self.occ, [occ], "told of a hop")
        for c in changes:
            if self.mine.get(c.external_site) != c.old_value:
                self.fail("changes", f"told that external site {c.external_site} held {c.old_value!r}, it held {self.mine.get(c.external_site)!r}")
            self.ctx.state(self.map["family"], repr(c.old_value), repr(c.new_value), str(getattr(arr, "dtype", None)))
        self.s.point("apply", "before")
        for c in changes:
            self.mine[c.external_site] = c.new_value
        self.occ = occ
        self.s.point("apply", "after")


_LIVE = [None]


class Handle:
    """What the factory of the external code returns: it knows only hops it was told of itself."""

    def __init__(self, ext):
        self.ext, self.told, self.epoch = ext, 0, ext.epoch

    def __len__(self):
        return 0 if self.ext.sc["empty"] else 1

    def up(self):
        if self.epoch != self.ext.epoch:
            self.told, self.epoch = 0, self.ext.epoch

    def energy(self, *a):
        self.up()
        if self.told != self.ext.told and self.ext.sc["apply"]:
            self.ext.fail("stale-evaluator", f"{self.ext.told} hops happened, the evaluator that is asked has heard of {self.told}")
        return self.ext.energy(*a)

    def commit(self, *a):
        self.up()
        self.told += 1
        return self.ext.commit(*a)


def live_runtime(key=None):
    return Handle(_LIVE[0])


def energy_by_ref(runtime, external_occupation, changes, event, simulation_state, tag):
    return runtime.energy(external_occupation, changes, event, simulation_state, tag)


def commit_by_ref(runtime, external_occupation, changes, event, simulation_state, tag):
    return runtime.commit(external_occupation, changes, event, simulation_state, tag)


def _keys(seq, style):
    if seq is None or style == "list":
        return copy.deepcopy(seq)
    key = str if style == "str" else int
    return {key(i): copy.deepcopy(v) for i, v in enumerate(seq) if v is not None}


def functions(sc, ext):
    if sc["style"] == "full":
        return energy_by_ref, commit_by_ref
    if sc["style"] == "kwargs":
        def energy(**kw):
            return ext.energy(kw["external_occupation"], kw["changes"], kw["event"], kw["simulation_state"], kw["tag"])

        def commit(**kw):
            return ext.commit(kw["external_occupation"], kw["changes"], kw["event"], kw["simulation_state"], kw["tag"])
        return energy, commit

    def energy(external_occupation, changes, tag):
        return ext.energy(external_occupation, changes, tag=tag)
    return energy, commit_by_ref


def site_model(sc, ext, order):
    from kmcpy.models.site_energy import SiteEnergyModel
    m = sc["map"]
    kw = {"site_mapping": _keys(m["sites"], m["site_style"]),
          "state_mapping": _keys(m["states"], m["state_style"]),
          "compute_kwargs": {"tag": 7}, "apply_kwargs": {"tag": 9} if sc["apply"] else None,
          "external_fill_value": m["fill"], "units": sc["units"]}
    if m["by_site"] is not None:
        by = [None if v is None else _keys(v, m["state_style"]) for v in m["by_site"]]
        kw["state_mapping_by_site"] = _keys(by, m["site_style"])
    if m["size"] is not None:
        kw["external_size"] = m["size"]
    if m["initial"] is not None:
        kw["initial_occupation"] = list(m["initial"])
    if m["dtype"] is not None:
        kw["external_dtype"] = m["dtype"]
    if sc["order"]:
        kw["active_site_order"] = order
    spoil(kw, sc["bad"], m, ext.ref.n)
    if sc["style"] == "ref":
        kw.update(compute_ref="dst.props.evaluator:energy_by_ref", runtime_ref="dst.props.evaluator:live_runtime",
                  runtime_kwargs={"key": 3})
        if sc["apply"]:
            kw["apply_ref"] = "dst.props.evaluator:commit_by_ref"
    else:
        f, g = functions(sc, ext)
        kw.update(compute_fn=f, runtime=ext)
        if sc["apply"]:
            kw["apply_fn"] = g
    return SiteEnergyModel(**kw)


def spoil(kw, bad, m, n):
    if bad is None:
        return
    i, k = bad["site"], bad["state"]
    if bad["kind"] == "state":
        if m["states"] is not None:
            kw["state_mapping"] = {j: v for j, v in enumerate(m["states"]) if j != k}
        else:
            kw["state_mapping_by_site"] = {j: {x: y for x, y in enumerate(v) if (j, x) != (i, k)}
                                           for j, v in enumerate(m["by_site"]) if v is not None}
        return
    sites = dict(enumerate(m["sites"])) if m["sites"] is not None else {j: j for j in range(n)}
    if bad["kind"] == "site":
        del sites[i]
    elif bad["kind"] == "negative":
        sites[i] = -1 - k
    else:
        sites[i] = len(m["initial"]) if m["initial"] is not None else m["size"]
    kw["site_mapping"] = sites


def run(sc, ctx):
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.site_energy import SiteEnergyModel
    from kmcpy.simulator.state import State
    w = sc["world"]
    s = Session(w, ctx, lib=sc["lib"], lib_k=sc["k"])
    ext = External(sc, s)
    _LIVE[0] = ext

    def use(site):
        model = CompositeLCEModel(site_model=site, kra_model=W.constant_kra(w["model"]["kra"]))
        model._dst_wrapped = True
        s.b.model, s.b.site_model = model, site

    def begin(state):
        ext.sync(state)
        s.open(state=state)
        raise_found()

    def raise_found():
        if ext.found:
            raise ext.found[0]

    if sc["bad"] is not None:
        try:
            use(site_model(sc, ext, s.b.order))
            begin(s.b.state)
        except Violation:
            raise
        except Exception as e:
            ctx.log("refused", sc["bad"]["kind"], type(e).__name__)
            ctx.fault("mapping-" + sc["bad"]["kind"])
            return
        raise Violation("mapping-accepted", f"the mapping is wrong ({sc['bad']}), but a simulation was started with it")
    use(site_model(sc, ext, s.b.order))
    begin(s.b.state)
    ctx.probe("values-" + sc["map"]["family"])
    asked = told = 0
    for op in sc["ops"]:
        st = s.kmc.simulation_state
        if op["op"] == "restart":
            begin(st.copy() if op["via"] == "copy" else State.from_dict(st.as_dict()) if op["via"] == "dict" else st)
            ctx.probe("restart")
            continue
        if op["op"] == "other":
            begin(State(occupations=list(op["occ"])))
            ctx.probe("model-reused")
            continue
        if op["op"] == "reload":
            if op["via"] == "file":
                s.b.site_model.to("site.json")
                site = SiteEnergyModel.from_file("site.json")
            else:
                site = SiteEnergyModel.from_dict(json.loads(json.dumps(s.b.site_model.as_dict())))
            if sc["style"] != "ref":
                f, g = functions(sc, ext)
                site.compute_fn, site.runtime = f, ext
                if sc["apply"]:
                    site.apply_fn = g
            use(site)
            begin(st.copy())
            ctx.probe("model-reloaded")
            continue
        st = s.kmc.simulation_state
        ext.sync(st)

        def ob(n, state, step, time, ck):
            if ext.found:
                raise ext.found[0]
            ext.check_array(getattr(s.b.site_model, "external_occupation", None),
                            ext.encoded(state.occupations), "after a step")
            raise_found()

        out = s.watch_run(observers=[ob], judge=False, strict=False, faults=op["faults"])
        raise_found()
        asked += ext.asked
        told += ext.told
        ext.asked = 0
        st = s.kmc.simulation_state
        if sc["apply"] and ext.told != int(st.step) - ext.base:
            raise Violation("missed-hop", f"{int(st.step) - ext.base} hops happened in the run, the evaluator was told of {ext.told}")
        if out.err is not None and not out.expected:
            occ = [int(o) for o in st.occupations]
            if s.ref.total_rate(occ) > 0:
                raise out.err
            break
    ctx.log("asked", asked, "told", told)
    if asked >= 10 and (told >= 3 or not sc["apply"]):
        ctx.nontrivial = True


def shrink(sc):
    for key in ("bad", "empty"):
        if sc[key]:
            n = copy.deepcopy(sc)
            n[key] = None if key == "bad" else False
            yield n
    from .recovery import shrink as f
    yield from f(sc)
    for key, v in (("size", None), ("initial", None), ("fill", 0), ("dtype", None), ("by_site", None), ("sites", None)):
        if sc["map"][key] != v:
            n = copy.deepcopy(sc)
            n["map"][key] = v
            yield n
