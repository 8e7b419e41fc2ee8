"""rates-in-sync: every hop is drawn from the rates of the current state."""
from __future__ import annotations

import copy

from .. import world as W
from ..session import LIB_STYLES, Session
from .common import shrink_list, shrink_with_world

LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 40000}
RULE = ("distinct event-log digests of runs with at least 3 production steps and at least one "
        "step after which the rate of an event other than the executed one changed")
REAL = ["kmcpy.simulator.kmc.KMC", "kmcpy.simulator.state.State", "kmcpy.simulator.tracker.Tracker",
        "kmcpy.event.EventLib", "kmcpy.event.HopStateLookup", "kmcpy.models.LocalBarrierModel",
        "kmcpy.models.CompositeLCEModel", "kmcpy.models.LocalClusterExpansion",
        "kmcpy.models.SiteEnergyModel", "numba kernels", "numpy PCG64"]
STUB = ["seeded rate-table model (in the runs that draw it)", "external site-energy evaluator"]
ASSUMPTIONS = ["a stub or external rate model reads only sites listed by its event",
               "the first draw of a step selects the event and the second the waiting time "
               "(pinned by the repository's own seeded tests)"]
STATE_MEASURE = "distinct (hop, occupation vector after it) pairs"


def gen(r, tier, i):
    kind = r.choice(["table", "table", "barrier", "lce", "composite"])
    big = tier == "thorough" and r.random() < 0.3
    w = W.gen_world(r, max_sites=24 if big else 14, model=kind,
                    passes=(1, 8 if big else 4))
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if ops and r.random() < 0.4:
            ops.append({"op": "restart", "via": r.choice(["copy", "json", "file", "same-lib-new-lookup"])})
        rare = []
        if r.random() < 0.5:
            for _ in range(r.randint(1, 3)):
                rare.append({"step": r.randint(1, 8), "kind": r.choice(["zero", "top", "edge", "edge"]),
                             "i": r.randrange(40)})
        flaky = sorted(r.sample(range(1, 12), r.randint(1, 3))) if r.random() < 0.2 else []
        ops.append({"op": "run", "rare": rare, "flaky": flaky})
    return {"world": w, "lib": r.choice(LIB_STYLES), "k": r.randint(1, max(1, len(w["events"]) - 1)),
            "ops": ops}


def run(sc, ctx):
    w = sc["world"]
    s = Session(w, ctx, lib=sc["lib"], lib_k=sc["k"])
    ctx.probe("lib-" + sc["lib"])
    ctx.probe("model-" + w["model"]["kind"])
    if w["hetero"]:
        ctx.probe("hetero-sites")
    s.open()
    moved = [0]

    def other_rates(n, st, step, time, ck):
        if not ctx.nontrivial:
            cur = ck.rate_fn(ck.occ)
            prev = other_rates.prev
            other_rates.prev = cur
            if prev is not None and sum(1 for a, b in zip(prev, cur) if a != b) > 1 and n >= 3:
                ctx.nontrivial = True

    other_rates.prev = None
    for op in sc["ops"]:
        if op["op"] == "restart":
            restart(s, op["via"])
            ctx.probe("restart-" + op["via"])
            continue
        s.watch_run(rare=op.get("rare", ()), observers=[other_rates],
                    faults=[{"at": "callback", "n": at, "exc": "error", "policy": "true",
                             "pos": "before" if at % 2 else "after"}
                            for at in op.get("flaky", [])])
        if s.dead:
            break
    ctx.log("end", "".join(map(str, s.kmc.simulation_state.occupations)))


def restart(s, via):
    from kmcpy.simulator.state import State
    st = s.kmc.simulation_state
    if via == "copy":
        new = st.copy()
    elif via == "same-lib-new-lookup":
        new = State(occupations=list(st.occupations), time=st.time, step=st.step)
    else:
        st.save_checkpoint("ck.json")
        new = (State.load_checkpoint("ck.json") if via == "json"
               else State.from_file("ck.json", active_site_order=s.b.order))
    s.open(state=new)


def shrink(sc):
    if sc["lib"] != "gen":
        n = copy.deepcopy(sc)
        n["lib"] = "gen"
        yield n
    for i, op in enumerate(sc["ops"]):
        for key in ("rare", "flaky"):
            if op.get(key):
                n = copy.deepcopy(sc)
                n["ops"][i][key] = []
                yield n
                for j in range(len(op[key])):
                    n = copy.deepcopy(sc)
                    del n["ops"][i][key][j]
                    yield n
    yield from shrink_with_world(sc, "ops")
