"""conservation: hops move ions, they never create, destroy or transmute them."""
from __future__ import annotations

import copy

from ..core import Violation
from .. import world as W
from ..ref import Follower
from ..session import LIB_STYLES, Session, gen_faults
from .common import shrink_with_world
from .rates import restart

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("distinct event-log digests of runs with at least 4 observed hops of at least two "
        "different ions")
REAL = ["kmcpy.simulator.kmc.KMC", "kmcpy.simulator.state.State", "kmcpy.event.HopStateLookup",
        "kmcpy.event.EventLib", "kmcpy.structure.ActiveSiteOrder", "kmcpy.models.*"]
STUB = ["seeded rate-table model (in the runs that draw it)", "external site-energy evaluator",
        "user callbacks", "file system errors (LD_PRELOAD shim)"]
ASSUMPTIONS = ["the initial occupations are valid state indices",
               "interrupts are delivered while user code runs"]
STATE_MEASURE = "distinct (source site, target site, occupation vector) triples"


def gen(r, tier, i):
    kind = r.choice(["table", "table", "barrier", "lce", "composite"])
    w = W.gen_world(r, max_sites=r.choice([8, 14, 20]), model=kind, hetero=0.5, passes=(1, 5))
    steps = W.RefWorld(w).pass_length * (w["cfg"]["kmc_passes"] + w["cfg"]["equilibration_passes"])
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        if ops and r.random() < 0.3:
            ops.append({"op": "restart", "via": r.choice(["copy", "json", "file"])})
        ops.append({"op": "run", "faults": gen_faults(r, steps) if r.random() < 0.35 else []})
    return {"world": w, "lib": r.choice(LIB_STYLES), "k": r.randint(1, max(1, len(w["events"]) - 1)),
            "ops": ops}


def run(sc, ctx):
    w = sc["world"]
    s = Session(w, ctx, lib=sc["lib"], lib_k=sc["k"])
    if w["hetero"]:
        ctx.probe("hetero-sites")
    if w["bare"]:
        ctx.probe("no-lookup")
    s.open()
    st = s.kmc.simulation_state
    fo = Follower(s.ref, st.occupations, st.time, st.step)
    movers = set()
    total = 0
    for op in sc["ops"]:
        if op["op"] == "restart":
            restart(s, op["via"])
            continue
        st = s.kmc.simulation_state
        eq = s.ref.cfg["equilibration_passes"] * s.ref.pass_length

        def ob(n, state, step, time, ck):
            if n == 1 and eq:
                # equilibration hops are not observed one by one
                fo.valid(state.occupations, "after equilibration")
                if step != fo.step_no + eq + 1:
                    raise Violation("step-counter", f"step {step} after {eq} equilibration hops from {fo.step_no}")
                if time < fo.time:
                    raise Violation("clock", f"time went from {fo.time!r} to {time!r}")
                fo.start(state.occupations, time, step)
            else:
                src, dst = fo.step(state.occupations, time, step)
                movers.add(fo.loc.index(dst))
                ctx.state(src, dst, fo.occ)

        out = s.watch_run(observers=[ob], judge=False, strict=False, faults=op.get("faults", ()))
        total += len(out.rec.rows)
        st = s.kmc.simulation_state
        fo.valid(st.occupations, "after the run")
        if out.err is not None:
            if not out.expected:
                _dead_or_raise(s, out)
                break
            if out.rec.rows and tuple(st.occupations) != fo.occ:
                fo.hop(st.occupations, "after the failure")
        fo.start(st.occupations, st.time, st.step)
    if total >= 4 and len(movers) >= 2:
        ctx.nontrivial = True
    ctx.log("end", "".join(map(str, s.kmc.simulation_state.occupations)))


def _dead_or_raise(s, out):
    """An error nobody injected is only legitimate when no hop is possible."""
    occ = [int(o) for o in s.kmc.simulation_state.occupations]
    if not s.ref.total_rate(occ) > 0:
        return
    raise out.err


def shrink(sc):
    from .recovery import shrink as f
    yield from f(sc)
