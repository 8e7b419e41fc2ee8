"""Drives the real KMC object through one seeded history of user operations.

One `Session` owns a world, the real kMCpy objects and the online observers.
Each production step is judged while the run proceeds; what an observer
finds is raised as soon as control returns to the simulator.
"""
from __future__ import annotations

import os

import numpy as np

from .core import HarnessError, InjectedFault, InjectedInterrupt, SkipRun, Violation
from .props.common import DrawTap, Recorder, craft_pcg
from .ref import Checker, Draws, pick
from . import shim
from . import world as W


def build_lib(w, b, style, k=None, path="events.json"):
    """Assemble the event library the way `style` says a user did it."""
    from kmcpy.event import Event, EventLib
    evs = [Event(mobile_ion_indices=tuple(e["m"]), local_env_indices=tuple(e["env"]))
           for e in w["events"]]
    lib = EventLib()
    k = len(evs) if k is None else max(1, min(k, len(evs)))
    if style in ("late", "late-regen"):
        for e in evs[:k]:
            lib.add_event(e)
        lib.generate_event_dependencies()
        for e in evs[k:]:
            lib.add_event(e)
        if style == "late-regen":
            lib.generate_event_dependencies()
        return lib
    for e in evs:
        lib.add_event(e)
    if style == "nogen":
        return lib
    if style == "gen":
        lib.generate_event_dependencies()
        return lib
    if style == "cleared":
        lib.generate_event_dependencies()
        lib.clear_event_dependencies()
        return lib
    lib.set_index_metadata(b.order)
    if style == "file":
        lib.generate_event_dependencies()
        lib.to(path)
        return EventLib.from_file(path)
    if style == "file-nodeps":
        lib.to(path)
        return EventLib.from_file(path)
    if style == "dict":
        lib.generate_event_dependencies()
        return EventLib.from_dict(lib.as_dict())
    raise HarnessError(style)


LIB_STYLES = ["gen", "gen", "gen", "file", "file-nodeps", "dict", "late", "late-regen",
              "nogen", "cleared"]


class Session:
    def __init__(self, w, ctx, lib="gen", lib_k=None, name="sim"):
        self.w, self.ctx = w, ctx
        self.b = W.build(w, name=name, with_deps=False)
        self.b.lib = build_lib(w, self.b, lib, lib_k)
        self.ref = self.b.ref
        self.kmc = None
        self.runs = 0
        self.calls, self.plan, self.injected = {}, {}, []
        self.dead = False
        self.instrument(self.b.model)

    # -- fault points at the model boundary ------------------------------------
    def instrument(self, model):
        """Route the model's public hooks through the simulator."""
        if getattr(model, "_dst_wrapped", False):
            return model
        for kind, name in (("compute", "compute_probability"), ("apply", "apply_event"),
                           ("init", "initialize_state")):
            real = getattr(model, name)

            setattr(model, name, self._hooked(real, kind))
        model._dst_wrapped = True
        return model

    def _hooked(self, real, kind):
        def hooked(*args, **kw):
            self.point(kind, "before")
            out = real(*args, **kw)
            self.point(kind, "after")
            return out
        return hooked

    def point(self, kind, when):
        if when == "before":
            self.calls[kind] = self.calls.get(kind, 0) + 1
        f = self.plan.get((kind, when, self.calls.get(kind, 0)))
        if f is not None:
            self.inject(f)

    def inject(self, f):
        exc = make_exc(f["exc"], f"{f['at']}#{f['n']}")
        exc.dst = f
        self.injected.append(exc)
        self.ctx.fault(f"{f['at']}-{f['exc']}")
        raise exc

    def arm(self, faults):
        self.calls, self.plan, self.injected = {}, {}, []
        for f in faults:
            if f["at"] in ("compute", "apply", "init"):
                self.plan[(f["at"], f.get("when", "before"), int(f["n"]))] = f

    def open(self, state=None):
        self.kmc = self.b.kmc(state=state)
        return self.kmc

    def seed(self):
        return self.w["cfg"]["random_seed"]

    def watch_run(self, rare=(), observers=(), judge=True, label=None, name="recorder",
                  faults=(), strict=True):
        """kmc.run() with the refinement checker attached.

        rare:   [{"step": s, "kind": ...}] draws to force before production step s.
        faults: [{"at": ..., "n": ..., "exc": ...}] what the simulator injects.
        Returns an Outcome; raises Violation.
        """
        kmc, ref, ctx = self.kmc, self.ref, self.ctx
        state = kmc.simulation_state
        out = Outcome(state)
        draws = Draws(self.seed())
        ck = out.ck = Checker(ref, state.occupations, draws, time=state.time)
        pl = ref.pass_length
        eq = ref.cfg["equilibration_passes"] * pl
        alive = ck.equilibrate(eq) if judge else True
        want = ref.cfg["kmc_passes"] * pl
        found = []
        tap = DrawTap()
        rare = {int(x["step"]): x for x in rare}

        def force(next_step):
            x = rare.get(next_step)
            if x is None or not tap.made:
                return
            g = tap.made[-1]
            if g.bit_generator.state != draws.g.bit_generator.state:
                return
            rates = ck.rate_fn(ck.occ)
            tot = float(np.sum(rates))
            if not tot > 0:
                return
            if x["kind"] == "zero":
                u = 0.0
            elif x["kind"] == "top":
                u = 1.0 - 2.0 ** -53
            else:
                cum = np.cumsum(rates)
                i = int(x.get("i", 0)) % len(cum)
                u = float((cum / cum[-1])[i])
                u = min(u, 1.0 - 2.0 ** -53)
                u = np.floor(u * 2 ** 53) / 2 ** 53
            if craft_pcg(g.bit_generator, u):
                draws.g.bit_generator.state = g.bit_generator.state
                ctx.fault("rare-draw-" + x["kind"])

        def on_step(n, st, step, time):
            if found:
                return
            try:
                if judge:
                    src, dst = ck.step(st.occupations, time)
                    ctx.state(src, dst, tuple(ck.occ))
                for ob in observers:
                    ob(n, st, step, time, ck)
            except (Violation, SkipRun) as v:
                found.append(v)
            force(n + 1)

        rec = out.rec = Recorder(on_step)
        self.arm(faults)
        attached = [name]

        def flaky(f):
            count = [0]

            def cb(st, step, time):
                count[0] += 1
                if count[0] == int(f["n"]):
                    self.inject(f)
                return step

            def on_error(e, st, step, time):
                if f["policy"] == "raise":
                    raise InjectedFault("error handler failed")
                return f["policy"] == "true"

            nm = f"flaky{len(attached)}"
            kmc.attach(cb, interval=1, name=nm,
                       on_error=None if f["policy"] == "none" else on_error)
            attached.append(nm)

        for f in faults:
            if f["at"] == "callback" and f.get("pos") == "before":
                flaky(f)
        kmc.attach(rec, interval=1, name=name, store=False)
        for f in faults:
            if f["at"] == "callback" and f.get("pos") != "before":
                flaky(f)
        out.attachments = kmc.list_attachments()
        self.runs += 1
        io = [f for f in faults if f["at"] == "write"]
        try:
            with tap:
                if eq == 0 and 1 in rare:
                    old = np.random.default_rng

                    def first(*a, **k):
                        g = old(*a, **k)
                        force(1)
                        return g
                    np.random.default_rng = first
                if io:
                    shim.arm(os.getcwd(), [("m", int(f["n"]), f["act"], int(f["arg"])) for f in io])
                try:
                    out.tracker = kmc.run(label=label)
                finally:
                    if io:
                        got = shim.disarm()
                        out.io_fired = got["fired"]
                        if got["fired"]:
                            ctx.fault("write-" + io[0]["act"], got["fired"])
        except (Exception, KeyboardInterrupt) as e:
            out.err = e
        finally:
            self.plan = {}
        out.attachments_after = kmc.list_attachments()
        for nm in attached:
            try:
                kmc.detach(nm)
            except ValueError:
                pass
        ctx.steps += len(rec.rows)
        if np.isfinite(state.time):
            ctx.sim_time += max(0.0, state.time - ck.t0)
        for row in rec.rows:
            ctx.log("step", row[1], repr(row[2]), "".join(map(str, row[0])))
        if out.err is not None:
            ctx.log("raised", type(out.err).__name__)
        if found:
            raise found[0]
        out.injected = list(self.injected)
        out.expected = self._explains(out)
        self.dead = False
        if out.err is not None:
            if out.expected:
                return out
            if (not alive) or (ck.dead() if judge else not strict):
                ctx.probe("dead-state-reached")
                self.dead = True
                return out
            raise out.err
        if strict:
            if not alive:
                raise Violation("step-from-dead-state", "equilibration reached a state with no possible event, the run went on")
            if len(rec.rows) != want:
                raise Violation("wrong-step-count", f"{len(rec.rows)} production steps observed, {want} requested")
        return out

    def _explains(self, out):
        """Is this error the one the simulator injected, reported faithfully?"""
        e = out.err
        if e is None:
            return False
        if out.io_fired and isinstance(e, OSError):
            return True
        chain, seen = e, 0
        while chain is not None and seen < 6:
            if any(chain is x for x in out.injected):
                return True
            chain = chain.__cause__ or chain.__context__
            seen += 1
        return False


class Outcome:
    def __init__(self, state):
        self.tracker = None
        self.err = None
        self.ck = None
        self.rec = None
        self.injected = []
        self.expected = False
        self.io_fired = 0
        self.occ0 = tuple(int(o) for o in state.occupations)
        self.time0 = float(state.time)
        self.step0 = int(state.step)


def make_exc(kind, text):
    if kind == "interrupt":
        return InjectedInterrupt(text)
    if kind == "memory":
        return MemoryError(text)
    if kind == "os":
        return OSError(5, text)
    return InjectedFault(text)


def gen_faults(r, steps, io=True, model_points=True):
    """A swarm of at most three faults for one run of about `steps` steps."""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        kinds = ["callback", "callback"] + (["compute", "compute", "apply", "apply"] if model_points else [])
        if io:
            kinds.append("write")
        at = r.choice(kinds)
        exc = r.choice(["error", "error", "interrupt", "memory", "os"])
        if at == "callback":
            out.append({"at": at, "n": r.randint(1, max(1, steps)), "exc": exc,
                        "policy": r.choice(["none", "none", "true", "false", "raise"]),
                        "pos": r.choice(["before", "after"])})
        elif at == "write":
            if any(f["at"] == "write" for f in out):
                continue
            out.append({"at": at, "n": r.randint(0, 25), "exc": "os",
                        "act": r.choice(["err", "errfrom"]), "arg": r.choice([28, 5, 122])})
        elif at == "compute":
            out.append({"at": at, "n": r.randint(1, max(1, steps * 4)), "exc": exc,
                        "when": r.choice(["before", "after"])})
        else:
            out.append({"at": at, "n": r.randint(1, max(1, steps)), "exc": exc,
                        "when": r.choice(["before", "after"])})
    return out
