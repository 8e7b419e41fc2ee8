"""isolation: a seeded run is a function of its own inputs and its seed.

Several simulations of one process run as parked threads; the simulator hands
a baton from one to the next at the points where kMCpy calls user code.  Each
history is compared with that of the same simulation run alone, with objects
of its own, in a process that has run nothing else.
"""
from __future__ import annotations

import copy
import gzip
import json
import os
import random
import select
import signal
import struct
import threading
import traceback

import numpy as np

from ..core import HarnessError, InjectedFault, Violation
from .. import project as P
from .. import world as W
from .common import shrink_world

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("distinct event-log digests of runs in which the baton passed between at least two live "
        "simulations at least three times and at least 6 production steps were compared")
REAL = ["kmcpy.simulator.kmc.KMC", "kmcpy.simulator.state.State", "kmcpy.simulator.tracker.Tracker",
        "kmcpy.simulator.config.Configuration", "kmcpy.event", "kmcpy.models (barrier, LCE)",
        "kmcpy.simulator.results (files)", "KMC.from_config (in the project runs)"]
STUB = ["thread scheduling (baton)", "seeded rate-table model (in the runs that draw it)",
        "user callbacks", "entropy of unseeded generators"]
ASSUMPTIONS = ["simulations switch where kMCpy calls user code (callbacks and model hooks)",
               "a model shared between simulations keeps no state of its own",
               "simulations sharing an event library all pass a hop-state lookup, or none does"]
STATE_MEASURE = "distinct (simulation, step, occupation vector, simulation running before) tuples"

PARTS = ["structure", "order", "lookup", "lib", "model", "config", "values"]


# -- scenario ----------------------------------------------------------------------
def gen(r, tier, i):
    proj = r.random() < 0.15
    kind = "barrier" if proj else r.choice(["table", "table", "barrier", "lce"])
    w = W.gen_world(r, max_sites=r.choice([6, 10, 14]), hetero=0.7, model=kind, passes=(1, 3),
                    eq=(0, 2), project=proj)
    worlds = [w]
    alt = _alt(w)
    if alt is not None:
        worlds.append(alt)
    if r.random() < 0.3 and not proj:
        worlds.append(dict(W.gen_world(r, max_sites=8, model=r.choice(["table", "barrier", "lce"]),
                                       passes=(1, 2), eq=(0, 1)), stranger=True))
    sims = []
    seeds = [r.randrange(2 ** 31) for _ in range(2)] + [0]
    for k in range(r.choice([2, 2, 3, 4])):
        n = 0 if r.random() < 0.45 else r.randrange(len(worlds))
        over = {"random_seed": r.choice(seeds)}
        if r.random() < 0.4:
            over["temperature"] = round(r.uniform(200.0, 900.0), 2)
        if r.random() < 0.3:
            over["kmc_passes"] = r.randint(1, 3)
        if r.random() < 0.3:
            over["attempt_frequency"] = float(f"{10 ** r.uniform(6, 13):.4e}")
        if r.random() < 0.12:
            over["random_seed"] = None
        sims.append({
            "world": n, "share": [p for p in PARTS if r.random() < 0.7], "over": over,
            "config": r.choice(["own", "shared", "derived", "derived"]),
            "state": r.choice(["list", "from", "copy", "dict", "deep"]),
            "project": proj and r.random() < 0.7, "ops": _ops(r)})
    sched = []
    wide = r.choice([3, 12, 60])
    for _ in range(r.choice([4, 20, 80, 200])):
        sched.append([r.randint(1, wide), r.randrange(6), r.choice([None] * 6 + [
            ["np-seed", r.randrange(1000)], ["np-draw", r.randint(1, 5)],
            ["py-seed", r.randrange(1000)], ["py-draw", r.randint(1, 5)]])])
    return {"worlds": worlds, "sims": sims, "sched": sched,
            "lib": r.choice(["gen", "gen", "nogen", "file"]),
            "enabled": {} if r.random() < 0.5 else {r.choice(["msd", "conductivity"]): r.random() < 0.5},
            "callbacks": [] if r.random() < 0.6 else [
                {"callable": "dst.props.isolation:cb_occ", "name": "conf", "interval": r.randint(1, 3)}]}


def _alt(w):
    """The same material with the other ion as the mobile one."""
    if not w["hetero"]:
        return None
    n = copy.deepcopy(w)
    n["mobile"] = "Li" if w["mobile"] == "Na" else "Na"
    try:
        ref = W.RefWorld(n)
        if ref.pass_length < 1 or not ref.total_rate(n["occ"]) > 0:
            return None
    except Exception:
        return None
    return n


def _ops(r):
    ops = []
    for k in range(r.choice([1, 1, 2, 3])):
        for _ in range(r.choice([0, 0, 1, 2])):
            t = r.choice(["freq", "enable", "attach", "attach", "clear"])
            if t == "freq":
                ops.append({"op": "freq", "interval": r.choice([None, 1, 2, 3]),
                            "time": r.choice([None, None, 1e-9])})
            elif t == "enable":
                ops.append({"op": "enable", "name": r.choice(["msd", "havens_ratio", "jump_diffusivity"]),
                            "on": r.random() < 0.3})
            elif t == "attach":
                ops.append({"op": "attach", "fn": r.choice(["cb_occ", "cb_time", "cb_step"]),
                            "interval": r.choice([None, 1, 2]), "max": r.choice([None, None, 2])})
            else:
                ops.append({"op": "clear"})
        ops.append({"op": "run", "fail": r.randint(1, 8) if r.random() < 0.15 else None})
        if r.random() < 0.3:
            ops.append({"op": "restart", "via": r.choice(["copy", "dict", "same"])})
    return ops


# -- the baton ------------------------------------------------------------------------
class Baton:
    """Decides which simulation runs; switches only inside `point`."""

    def __init__(self, names, sched, ctx):
        self.names, self.sched, self.ctx = names, list(sched), ctx
        self.gate = {n: threading.Semaphore(0) for n in names}
        self.main = threading.Semaphore(0)
        self.alive = list(names)
        self.left = None
        self.found = []
        self.who = None
        self.before = None
        self.passes = 0
        self.rand = _random_state()

    def start(self):
        self._advance(first=True)
        self.main.acquire()

    def _next(self):
        """Consume one schedule entry: returns the simulation to run next."""
        self.watch()
        if not self.sched or len(self.alive) == 0:
            self.left = None
            return self.who if self.who in self.alive else self.alive[0]
        gap, who, noise = self.sched.pop(0)
        self.left = max(1, int(gap))
        if noise:
            _noise(noise)
            self.ctx.fault("global-random-" + noise[0])
            self.rand = _random_state()
        return self.alive[who % len(self.alive)]

    def watch(self):
        if _random_state() != self.rand and not self.found:
            self.found.append(Violation(
                "global-random-changed", f"a global random generator changed while simulation {self.who} ran"))

    def _advance(self, first=False):
        nxt = self._next()
        if nxt != self.who:
            self.before = self.who
            if not first:
                self.passes += 1
        self.who = nxt
        self.ctx.turn(nxt)
        self.gate[nxt].release()

    def point(self):
        """Called by the running simulation."""
        me = self.who
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        self._advance()
        self.gate[me].acquire()

    def done(self):
        """The running simulation has ended."""
        self.watch()
        self.alive.remove(self.who)
        if self.alive:
            self._advance()
        else:
            self.main.release()


def _random_state():
    s = np.random.get_state()
    return (s[0], bytes(s[1].tobytes()), s[2], s[3], s[4], hash(random.getstate()))


def _noise(n):
    kind, k = n
    if kind == "np-seed":
        np.random.seed(k)
    elif kind == "np-draw":
        np.random.random(k)
    elif kind == "py-seed":
        random.seed(k)
    else:
        for _ in range(k):
            random.random()


_POINT = [None]     # where user code yields; None when a simulation runs alone


def _point():
    if _POINT[0] is not None:
        _POINT[0].point()


def cb_occ(state, step, time):
    _point()
    return [int(o) for o in state.occupations]


def cb_time(state, step, time):
    _point()
    return float(time)


def cb_step(state, step, time):
    _point()
    return int(step)


CALLBACKS = {"cb_occ": cb_occ, "cb_time": cb_time, "cb_step": cb_step}


# -- the objects ---------------------------------------------------------------------
class Pool:
    """Objects handed to simulations; `get` makes one, shared or not."""

    def __init__(self, sc, where):
        self.sc, self.where = sc, where
        self.cache = {}
        os.makedirs(where, exist_ok=True)

    def get(self, key, shared, make):
        if not shared:
            return make()
        if key not in self.cache:
            self.cache[key] = make()
        return self.cache[key]


def hook_model(model):
    if getattr(model, "_dst_wrapped", False):
        return model
    for name in ("compute_probability", "apply_event", "initialize_state"):
        real = getattr(model, name, None)
        if real is not None:
            setattr(model, name, _hooked(real))
    model._dst_wrapped = True
    return model


def _hooked(real):
    def hooked(*a, **k):
        _point()
        return real(*a, **k)
    return hooked


def make_lib(sc, w, order, where):
    from kmcpy.event import EventLib
    lib = P.make_lib(w, order, deps=sc["lib"] == "gen")
    if sc["lib"] == "file":
        path = os.path.join(where, "lib.json")
        lib.to(path)
        lib = EventLib.from_file(path)
    return lib


class Sim:
    """One user's simulation: builds its KMC and follows its script."""

    def __init__(self, k, spec, sc, pool, where):
        self.k, self.spec, self.sc, self.pool, self.where = k, spec, sc, pool, where
        self.w = sc["worlds"][spec["world"]]
        # what belongs to the material, whichever ion moves
        self.geo = spec["world"] if self.w.get("stranger") else 0
        self.history = []
        self.kept = []
        self.steps = 0
        self.error = None
        self.kmc = None

    def on(self, part):
        return part in self.spec["share"]

    def objects(self):
        from kmcpy.event import HopStateLookup
        from kmcpy.simulator.state import State
        p, w, sp = self.pool, self.w, self.spec
        first = self.sc["worlds"][self.geo]
        self.order = p.get(("order", self.geo), self.on("order"), lambda: build_order(first))
        self.structure = p.get(("structure", self.geo), self.on("structure"),
                               lambda: self.order.active_structure())
        self.lookup = None
        if not w["bare"]:
            self.lookup = p.get(("lookup", sp["world"]), self.on("lookup"),
                                lambda: HopStateLookup.from_active_site_order(self.order, w["mobile"]))
        self.lib = p.get(("lib", self.geo), self.on("lib"),
                         lambda: make_lib(self.sc, first, self.order, p.where))
        mk = sp["world"] if w["model"]["kind"] == "table" else self.geo
        self.model = p.get(("model", mk), self.on("model"),
                           lambda: hook_model(W.make_model(self.sc["worlds"][mk], _Ref(self.sc["worlds"][mk]))))
        values = p.get(("values", self.geo), self.on("values"), lambda: list(w["occ"]))
        self.config = self.configuration()
        st = sp["state"]
        if st == "list":
            self.state = State(occupations=values)
        elif st == "from":
            self.state = State.from_occupations(values, active_site_order=self.order)
        elif st == "dict":
            d = p.get(("dict", self.geo), self.on("values"),
                      lambda: {"occupations": values, "time": 0.0, "step": 0})
            self.state = State.from_dict(d)
        else:
            proto = p.get(("proto", self.geo), self.on("values"), lambda: State(occupations=values))
            self.state = proto.copy() if st == "copy" else copy.deepcopy(proto)

    def configuration(self, **extra):
        """Own, shared, or derived from the shared one: always the same fields."""
        p, w, sp = self.pool, self.w, self.spec
        enabled = p.get("enabled", self.on("config"), lambda: dict(self.sc["enabled"]))
        calls = p.get("calls", self.on("config"), lambda: [dict(c) for c in self.sc["callbacks"]])
        fields = dict(extra, builtin_property_enabled=enabled, property_callbacks=calls)
        base = self.sc["worlds"][self.geo]
        if sp["config"] == "own" or not self.on("config"):
            return W.make_config(w, name="sim", **dict(fields, **self.over()))
        # the shared configuration describes the first world's ion
        shared = p.get(("config", self.geo, bool(extra)), True,
                       lambda: W.make_config(base, name="sim", **fields))
        if w["mobile"] != base["mobile"]:
            shared = p.get(("config", sp["world"], bool(extra)), True,
                           lambda: shared.with_system_changes(mobile_ion_specie=w["mobile"]))
        if sp["config"] == "shared":
            return shared
        return shared.with_runtime_changes(**self.over())

    def over(self):
        return {} if self.spec["config"] == "shared" else dict(self.spec["over"])

    def build(self, state=None):
        from kmcpy.simulator.kmc import KMC
        kw = {}
        if self.lookup is not None:
            kw = {"hop_state_lookup": self.lookup, "active_site_order": self.order}
        self.kmc = KMC(structure=self.structure, model=self.model, event_lib=self.lib,
                       config=self.config, simulation_state=state or self.state, **kw)

    def build_project(self):
        from kmcpy.simulator.kmc import KMC
        d = os.path.join(self.pool.where, "project")
        if not os.path.isdir(d):
            os.makedirs(d)
            with open(os.path.join(d, "structure.cif"), "w") as f:
                f.write(P.cif_text(self.w))
            order = P.load_order(self.w, os.path.join(d, "structure.cif"))
            P.make_lib(self.w, order, deps=self.sc["lib"] == "gen").to(os.path.join(d, "events.json"))
            W.make_model(self.w, _Ref(self.w)).to(os.path.join(d, "model.json"))
        occ = self.pool.get("occ", self.on("values"), lambda: list(self.w["occ"]))
        mp = self.pool.get("mapping", self.on("values"), lambda: P.mapping(self.w))
        self.config = self.configuration(
            structure_file=os.path.join(d, "structure.cif"), model_file=os.path.join(d, "model.json"),
            event_file=os.path.join(d, "events.json"), site_mapping=mp, initial_occupations=occ)
        self.kmc = KMC.from_config(self.config)
        hook_model(self.kmc.model)

    def say(self, *items):
        self.history.append(" ".join(str(x) for x in items))

    def follow(self):
        """The script.  Everything observable goes into the history."""
        if self.spec["project"]:
            self.build_project()
        else:
            self.objects()
            self.build()
        runs = attached = 0
        for op in self.spec["ops"]:
            t = op["op"]
            _point()
            if t == "freq":
                self.kmc.set_property_frequency(interval=op["interval"], time_interval=op["time"])
            elif t == "enable":
                self.kmc.set_property_enabled(op["name"], op["on"])
            elif t == "clear":
                self.kmc.clear_attachments()
            elif t == "attach":
                attached += 1
                self.kmc.attach(CALLBACKS[op["fn"]], interval=op["interval"], max_records=op["max"],
                                name=f"p{attached}")
            elif t == "restart":
                from kmcpy.simulator.state import State
                if self.spec["project"]:
                    self.build_project()
                    self.say(t)
                    continue
                st = self.kmc.simulation_state
                st = (st.copy() if op["via"] == "copy" else
                      State.from_dict(st.as_dict()) if op["via"] == "dict" else st)
                self.build(st)
            else:
                runs += 1
                self.one_run(op, f"s{self.k}r{runs}")
            if t != "run":
                self.say(t, json.dumps(self.kmc.list_property_calculations(), sort_keys=True))

    def one_run(self, op, label):
        count = [0]

        def watch(state, step, time):
            count[0] += 1
            self.steps += 1
            self.say("step", step, float(time).hex(), "".join(str(int(o)) for o in state.occupations))
            if _POINT[0] is not None:
                _POINT[0].ctx.state(self.k, int(step), tuple(state.occupations), _POINT[0].before)
            _point()
            if op["fail"] is not None and count[0] == op["fail"]:
                raise InjectedFault("callback")

        self.kmc.attach(watch, interval=1, name="watch", store=False)
        try:
            tr = self.kmc.run(label=label)
        except Exception as e:
            self.say("raised", type(e).__name__)
        else:
            self.kept.append((tr, tracker_view(tr)))
            self.say("tracker", self.kept[-1][1])
            for name, blob in result_files(label):
                self.say("file", name, blob)
        st = self.kmc.simulation_state
        self.say("state", st.step, float(st.time).hex(), "".join(str(int(o)) for o in st.occupations))
        self.kmc.detach("watch")


class _Ref:
    """What W.make_model needs of a built world."""

    def __init__(self, w):
        self.ref = W.RefWorld(w)


def build_order(w):
    return W.build(w, with_deps=False, model=object()).order


def tracker_view(tr):
    return json.dumps({
        "results": {k: [float(x).hex() for x in v] for k, v in tr.results.items()},
        "hops": [int(x) for x in tr.hop_counter],
        "shift": [[float(x).hex() for x in row] for row in tr.displacement],
        "records": tr.get_property_records(), "pass": int(tr.current_pass)},
        sort_keys=True, default=str)


def result_files(label):
    out = []
    for n in sorted(os.listdir(".")):
        if label + "." in n or label + "_" in n:
            with open(n, "rb") as f:
                b = f.read()
            if n.endswith(".gz"):
                b = gzip.decompress(b)
            out.append((n, repr(b)))
    return out


def one_alone(sc, k, where):
    """Simulation k with objects of its own and nobody else around."""
    spec = copy.deepcopy(sc["sims"][k])
    sc = copy.deepcopy(sc)
    spec["share"] = []
    if spec["config"] == "derived":
        spec["config"] = "own"
    os.makedirs(where, exist_ok=True)
    old = os.getcwd()
    os.chdir(where)
    try:
        s = Sim(k, spec, sc, Pool(sc, os.path.join(where, "in")), where)
        with Entropy():
            s.follow()
    finally:
        os.chdir(old)
    return s.history


class Entropy:
    """An unseeded generator gets its entropy from the simulator."""

    def __enter__(self):
        self.real = np.random.default_rng
        self.n = 0

        def default_rng(*a, **k):
            if not a and k.get("seed") is None:
                self.n += 1
                return self.real(10 ** 9 + self.n)
            return self.real(*a, **k)
        np.random.default_rng = default_rng
        return self

    def __exit__(self, *exc):
        np.random.default_rng = self.real
        return False


# -- the pristine process ------------------------------------------------------------------
class Zygote:
    """Forked before this process ran any scenario; runs simulations alone in
    fresh children of its own."""

    def __init__(self):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        self.owner = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(aw)
            os.close(br)
            os.chdir("/")
            try:
                self.serve(os.fdopen(ar, "rb"), os.fdopen(bw, "wb"))
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.req, self.res = os.fdopen(aw, "wb"), os.fdopen(br, "rb")

    @staticmethod
    def serve(req, res):
        while True:
            line = req.readline()
            if not line:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    q = json.loads(line)
                    try:
                        out = {"history": one_alone(q["sc"], q["k"], q["where"])}
                    except Exception as e:
                        out = {"raised": f"{type(e).__name__}: {e}",
                               "trace": traceback.format_exc(), "sut": _sut(e)}
                    with os.fdopen(w, "w") as f:
                        json.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            res.write(struct.pack(">I", len(blob)) + blob)
            res.flush()

    def ask(self, sc, k, where):
        self.req.write(json.dumps({"sc": sc, "k": k, "where": where}).encode() + b"\n")
        self.req.flush()
        n = struct.unpack(">I", self._read(4))[0]
        if n == 0:
            raise HarnessError("the solo process died")
        return json.loads(self._read(n))

    def _read(self, n):
        out = b""
        while len(out) < n:
            ready, _, _ = select.select([self.res], [], [], 120.0)
            if not ready:
                raise HarnessError("the solo process does not answer")
            b = os.read(self.res.fileno(), n - len(out))
            if not b:
                raise HarnessError("the solo process died")
            out += b
        return out


def _sut(e):
    from ..engine import _from_sut
    return _from_sut(e)


_ZYGOTE = [None]


def zygote():
    z = _ZYGOTE[0]
    if z is None or z.owner != os.getpid():
        z = _ZYGOTE[0] = Zygote()
    return z


# -- one run -------------------------------------------------------------------------------
def inputs_view(pool):
    """The shared inputs, as their owners would describe them."""
    out = {}
    for key, obj in pool.cache.items():
        kind = key[0] if isinstance(key, tuple) else key
        if kind == "structure":
            v = (repr(obj.lattice.matrix.tolist()), [str(s) for s in obj.species],
                 repr(obj.frac_coords.tolist()))
        elif kind == "order":
            v = json.dumps(obj.as_dict(), sort_keys=True, default=str)
        elif kind == "lookup":
            v = (obj.mobile_state_by_site.tolist(), obj.vacancy_state_by_site.tolist())
        elif kind == "lib":
            d = obj.as_dict()
            v = json.dumps([d["events"], d["site_to_events"], d["index_metadata"]], sort_keys=True, default=str)
        elif kind == "model":
            if pool.sc["worlds"][key[1]]["model"]["kind"] == "lce":
                continue  # assembled from a bare payload, which cannot be written back
            v = json.dumps(obj.as_dict(), sort_keys=True, default=str)
        elif kind == "config":
            v = json.dumps(obj.as_dict(include_loader_paths=True), sort_keys=True, default=str)
        elif kind == "proto":
            v = (list(obj.occupations), float(obj.time), int(obj.step))
        else:
            v = json.dumps(obj, sort_keys=True, default=str)
        out[str(key)] = v
    return out


def run(sc, ctx):
    z = zygote()
    work = os.path.join(ctx.scratch, "shared")
    os.makedirs(work)
    pool = Pool(sc, os.path.join(work, "in"))
    sims = [Sim(k, sp, sc, pool, work) for k, sp in enumerate(sc["sims"])]
    # the owner of the shared inputs makes them before anybody runs
    for s in sims:
        if not s.spec["project"]:
            s.objects()
    before = inputs_view(pool)
    os.chdir(work)
    state0 = (np.random.get_state(), random.getstate())
    baton = Baton(list(range(len(sims))), sc["sched"], ctx)

    def body(s):
        baton.gate[s.k].acquire()
        try:
            s.follow()
        except BaseException as e:
            s.error = e
        finally:
            baton.done()

    threads = [threading.Thread(target=body, args=(s,), daemon=True) for s in sims]
    _POINT[0] = baton
    try:
        with Entropy():
            for t in threads:
                t.start()
            baton.start()
            for t in threads:
                t.join()
    finally:
        _POINT[0] = None
        np.random.set_state(state0[0])
        random.setstate(state0[1])
    if baton.found:
        raise baton.found[0]
    if os.getcwd() != os.path.realpath(work):
        raise Violation("working-directory", f"the simulations left the process in {os.getcwd()}")
    now = inputs_view(pool)
    for key, v in before.items():
        if now[key] != v:
            raise Violation("shared-input-changed", f"{key} was\n{str(v)[:600]}\nand is now\n{str(now[key])[:600]}")
    compared = 0
    for s in sims:
        ctx.steps += s.steps
        for line in s.history:
            ctx.log(s.k, line)
        for tr, view in s.kept:
            if tracker_view(tr) != view:
                raise Violation("results-changed-later",
                                f"the results of a finished run of simulation {s.k} changed afterwards")
        if s.spec["config"] != "shared" and s.spec["over"].get("random_seed", 0) is None:
            ctx.probe("unseeded-neighbour")
            if s.error is not None:
                raise s.error
            continue
        alone = z.ask(sc, s.k, os.path.join(ctx.scratch, f"alone{s.k}"))
        if "raised" in alone:
            if not alone["sut"]:
                raise HarnessError(alone["trace"])
            if s.error is None or f"{type(s.error).__name__}: {s.error}" != alone["raised"]:
                raise Violation("solo-differs", f"simulation {s.k} alone raised {alone['raised']}, "
                                                f"together with others {s.error!r}")
            continue
        if s.error is not None:
            if isinstance(s.error, HarnessError):
                raise s.error
            raise Violation("failed-in-company", f"simulation {s.k} runs through alone, but among others raised "
                                                 f"{type(s.error).__name__}: {s.error}")
        want = alone["history"]
        for n, (a, b) in enumerate(zip(want, s.history)):
            if a != b:
                raise Violation("history-differs", f"simulation {s.k}, entry {n}: alone\n{a[:500]}\namong others\n{b[:500]}")
        if len(want) != len(s.history):
            raise Violation("history-differs", f"simulation {s.k}: {len(want)} entries alone, {len(s.history)} among others")
        compared += s.steps
    kinds = {p for s in sims for p in s.spec["share"]}
    if len(sims) > 1 and "lib" in kinds and len({sp["world"] for sp in sc["sims"]
                                                 if "lib" in sp["share"] and sp["world"] < 2}) > 1:
        ctx.probe("library-shared-by-two-ions")
    if any(s.spec["project"] for s in sims):
        ctx.probe("from-config")
    ctx.fault("switch", baton.passes)
    if baton.passes >= 3 and compared >= 6:
        ctx.nontrivial = True


# -- shrinking -------------------------------------------------------------------------------
def shrink(sc):
    if len(sc["sims"]) > 1:
        for k in range(len(sc["sims"])):
            n = copy.deepcopy(sc)
            del n["sims"][k]
            yield n
    step = max(1, len(sc["sched"]) // 2)
    while sc["sched"] and step >= 1:
        for i in range(0, len(sc["sched"]), step):
            n = copy.deepcopy(sc)
            del n["sched"][i:i + step]
            yield n
        if step == 1:
            break
        step //= 2
    for i, e in enumerate(sc["sched"]):
        if e[2] is not None:
            n = copy.deepcopy(sc)
            n["sched"][i][2] = None
            yield n
    for k, s in enumerate(sc["sims"]):
        for j in range(len(s["ops"])):
            n = copy.deepcopy(sc)
            del n["sims"][k]["ops"][j]
            yield n
        for p in s["share"]:
            n = copy.deepcopy(sc)
            n["sims"][k]["share"].remove(p)
            yield n
        for key in list(s["over"]):
            if key != "random_seed":
                n = copy.deepcopy(sc)
                del n["sims"][k]["over"][key]
                yield n
    for key, v in (("enabled", {}), ("callbacks", []), ("lib", "gen")):
        if sc[key] != v:
            n = copy.deepcopy(sc)
            n[key] = v
            yield n
    if len(sc["worlds"]) == 1:
        for w in shrink_world(sc["worlds"][0]):
            n = copy.deepcopy(sc)
            n["worlds"] = [w]
            yield n


def warm(path):
    """Import every kMCpy module and compile the kernels before threads exist."""
    import importlib
    import pkgutil
    import kmcpy
    for m in pkgutil.walk_packages(kmcpy.__path__, "kmcpy."):
        try:
            importlib.import_module(m.name)
        except BaseException:
            pass
    from .common import warm_jit
    warm_jit(path)
