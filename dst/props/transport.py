"""transport-accounting: displacements, hop counts and averages are the trajectory's."""
from __future__ import annotations

import copy
import math

import numpy as np

from ..core import Violation
from .. import world as W
from ..ref import Follower
from ..session import LIB_STYLES, Session, gen_faults
from .common import same
from .rates import restart

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 150000}
RULE = "distinct event-log digests of completed runs with at least 4 production hops"
REAL = ["kmcpy.simulator.tracker.Tracker", "kmcpy.simulator.property", "kmcpy.simulator.kmc.KMC",
        "kmcpy.simulator.state.State", "kmcpy.structure.ActiveSiteOrder", "kmcpy.models.*"]
STUB = ["seeded rate-table model (in the runs that draw it)", "external site-energy evaluator",
        "user callbacks", "file system errors (LD_PRELOAD shim)"]
ASSUMPTIONS = ["a hop of exactly half a cell may be counted towards either image, but there and back must cancel",
               "the conductivity prefactor is compared at 3e-4 relative (kMCpy keeps a rounded constant)"]
STATE_MEASURE = "distinct (ion, displacement vector rounded to 1e-6, hop count) triples"
FIELDS = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
          "correlation_factor")


def gen(r, tier, i):
    kind = r.choice(["table", "table", "table", "barrier", "lce"])
    w = W.gen_world(r, max_sites=r.choice([8, 14, 20]), model=kind, hetero=0.35,
                    passes=(1, 6), rare_zero=False)
    steps = W.RefWorld(w).pass_length * (w["cfg"]["kmc_passes"] + w["cfg"]["equilibration_passes"])
    ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        if ops and r.random() < 0.4:
            ops.append({"op": "restart", "via": r.choice(["copy", "json", "file"])})
        ops.append({"op": "run", "interval": r.choice([1, 1, 2, 3, None]),
                    "disabled": r.sample(FIELDS, r.choice([0, 0, 1, 3])),
                    "faults": gen_faults(r, steps, io=False) if r.random() < 0.2 else []})
    return {"world": w, "lib": r.choice(["gen", "file", "dict"]), "k": 1, "ops": ops,
            "t0": r.choice([0.0, 0.0, 1.0, 3.7e-9])}


def run(sc, ctx):
    w = sc["world"]
    s = Session(w, ctx, lib=sc["lib"], lib_k=sc["k"])
    s.b.state.time = float(sc["t0"])
    s.open()
    eq = s.ref.cfg["equilibration_passes"] * s.ref.pass_length
    for op in sc["ops"]:
        if op["op"] == "restart":
            restart(s, op["via"])
            ctx.probe("restart-" + op["via"])
            continue
        st = s.kmc.simulation_state
        t_start = float(st.time)
        if op["interval"] is None:
            s.kmc.set_property_frequency()
        else:
            s.kmc.set_property_frequency(interval=op["interval"])
        for f in FIELDS:
            s.kmc.set_property_enabled(f, f not in op["disabled"])
        # Where production starts is only visible through the first hop when
        # equilibration ran; the reference process supplies it.
        hist = []
        fo = Follower(s.ref, st.occupations, st.time, st.step)

        def ob(n, state, step, time, ck):
            if n == 1:
                fo.start(start_occ(ck), t_start, step - 1)
            fo.step(state.occupations, time, step)
            hist.append((step, time, fo.metrics()))

        prev = {}

        def start_occ(ck):
            return ck.eq_states[-1]

        # judge=True is needed only to know the occupations after equilibration
        out = s.watch_run(observers=[ob], judge=bool(eq), strict=False, faults=op.get("faults", ())) \
            if eq else s.watch_run(observers=[_no_eq(ob, st)], judge=False, strict=False,
                                   faults=op.get("faults", ()))
        if out.err is not None:
            if not out.expected:
                occ = [int(o) for o in s.kmc.simulation_state.occupations]
                if s.ref.total_rate(occ) > 0 and not s.dead:
                    raise out.err
                break
            continue
        check(s, out.tracker, fo, hist, op, ctx)
    ctx.log("end", "".join(map(str, s.kmc.simulation_state.occupations)))


def _no_eq(ob, st):
    occ = tuple(int(o) for o in st.occupations)

    class CK:
        eq_states = [occ]

    return lambda n, state, step, time, ck: ob(n, state, step, time, CK)


def check(s, tr, fo, hist, op, ctx):
    if not hist:
        return
    loc = [int(x) for x in tr.mobile_ion_specie_locations]
    if loc != fo.loc:
        raise Violation("ion-locations", f"tracker has ions at {loc}, the trajectory puts them at {fo.loc}")
    if [int(x) for x in tr.hop_counter] != [int(x) for x in fo.hops]:
        raise Violation("hop-counter", f"tracker counted {tr.hop_counter.tolist()}, {fo.hops.tolist()} hops happened")
    d = np.asarray(tr.displacement, float)
    if d.shape != fo.disp.shape or np.max(np.abs(d - fo.disp), initial=0.0) > 1e-6:
        if d.shape == fo.disp.shape and fo.ties and fo.other_images(d):
            ctx.probe("other-image-convention")
            return
        raise Violation("displacement", f"tracker {d.tolist()} trajectory {fo.disp.tolist()}")
    if fo.ties:
        ctx.probe("half-cell-hops")
    interval = op["interval"] or max(s.ref.pass_length, 1)
    want = [h for h in hist if h[0] % interval == 0]
    res = tr.results
    c = s.ref.cfg
    sigma = (len(fo.loc) / s.ref.volume * 1e24 * (c["mobile_ion_charge"] * 1.602176634e-19) ** 2
             / (1.380649e-23 * c["temperature"])) * 1e3
    if len(res["time"]) != len(want):
        raise Violation("sample-count", f"{len(res['time'])} rows of results, {len(want)} due")
    for k, (step, time, m) in enumerate(want):
        if not same(res["time"][k], time):
            raise Violation("sample-time", f"row {k} is stamped {res['time'][k]!r}, step {step} was at {time!r}")
        for f in FIELDS:
            v = res[f][k]
            if f in op["disabled"]:
                if not math.isnan(v):
                    raise Violation("disabled-field", f"{f} is disabled but has value {v}")
                continue
            # quantities built from displacement^2 are zero only up to rounding
            dj2 = 1e-10 / (2 * c["dimension"] * max(time - fo.t0, 1e-300) * max(len(fo.loc), 1)) * 1e-16
            atol = {"msd": 1e-10, "correlation_factor": 1e-10, "jump_diffusivity": dj2,
                    "tracer_diffusivity": dj2 * len(fo.loc), "conductivity": dj2 * sigma,
                    "havens_ratio": 0.0}[f] if time > fo.t0 else 1e-10
            if f == "havens_ratio" and not m["jump_diffusivity"] > 1e4 * dj2:
                continue  # ratio of rounding noise
            rtol = 3e-4 if f == "conductivity" else 1e-6
            if not same(v, m[f], rtol=rtol, atol=atol):
                raise Violation("metric-" + f, f"step {step}: {f} = {v!r}, the trajectory gives {m[f]!r}")
    if want:
        last = [res[f][-1] for f in ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity",
                                     "havens_ratio", "correlation_factor")]
        now = list(tr.return_current_info())
        if len(now) != len(last) or not all(same(a, b) or (math.isnan(a) and math.isnan(b))
                                            for a, b in zip(now, last)):
            raise Violation("current-info", f"summary {now}, latest row {last}")
    if len(hist) >= 4:
        ctx.nontrivial = True
    for k in range(len(fo.loc)):
        ctx.state(k, tuple(np.round(fo.disp[k], 6).tolist()), int(fo.hops[k]))
    ctx.log("metrics", *[repr(float(np.round(x, 6))) for x in fo.disp.ravel()])


def shrink(sc):
    from .recovery import shrink as f
    yield from f(sc)
